#!/bin/sh
# tools/tlc.sh MODULE CFG : run TLC by hand in spec/
cd "$(dirname "$0")/../spec" && exec java -XX:+UseParallelGC -Xmx8g -Xss64m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -noGenerateSpecTE -metadir /tmp/tlcmd.$$ -workers 8 -config "$2" "$1.tla"
