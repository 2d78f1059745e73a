#!/bin/sh
# Nothing to install: check that the toolchain compiles the exact-arithmetic override.
set -e
d=$(mktemp -d)
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$d" spec/java/walrus/*.java
rm -r "$d"
echo setup ok
