#!/bin/bash
# addmod.sh NAME: register a harness module
cd /verif/h; grep -q "mod $1;" src/lib.rs || sed -i "s/^include!/#[cfg(feature = \"$1\")] pub mod $1;\ninclude!/" src/lib.rs
grep -q "^$1 = " Cargo.toml || sed -i "s/^tv = \[\]/tv = []\n$1 = []/" Cargo.toml
