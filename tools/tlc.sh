#!/bin/bash
# usage: tlc.sh [TLC arguments]  (run in /verif/spec)
CP=/verif/build/classes:/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
cd /verif/spec; java -XX:+UseParallelGC -Xss64m -cp $CP tlc2.TLC -workers ${W:-8} -metadir $D -nowarning -noGenerateSpecTE "$@"
