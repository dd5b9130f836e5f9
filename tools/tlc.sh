#!/bin/bash
# tlc.sh Module out
mkdir -p /tmp/ratc; [ /tmp/ratc/Rat.class -nt /verif/spec/java/Rat.java ] || javac -cp /opt/veriftools/tla/tla2tools.jar -d /tmp/ratc /verif/spec/java/Rat.java
rm -f ${2:-/tmp/o.json}
cd /verif/spec && java -XX:+UseParallelGC -Dactm.out=${2:-/tmp/o.json} $JOPT -cp /tmp/ratc:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC -workers ${W:-8} -metadir /tmp/tlcmeta/$1 -cleanup -nowarning $1 2>&1 | grep -v 'operator override\|^Parsing file\|^Semantic\|Linting'
