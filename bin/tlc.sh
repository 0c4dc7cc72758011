#!/bin/bash
# tlc.sh MODULE CFG [args]: run TLC on a specification by hand
cd "$(dirname "$0")/../spec" && m=$(mktemp -d) && java -XX:+UseParallelGC -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir $m -workers 6 -config $2 "${@:3}" $1.tla; rm -rf $m
