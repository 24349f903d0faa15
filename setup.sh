#!/bin/bash
# Compiles the TLC module overrides (java/) into build/classes.
set -e
cd "$(dirname "$0")"
mkdir -p build/classes.new
javac -nowarn -d build/classes.new -cp /opt/veriftools/tla/tla2tools.jar java/tlc2/overrides/*.java
mkdir -p build/classes
cp -r build/classes.new/. build/classes/
rm -r "$PWD/build/classes.new"
echo "setup ok"
