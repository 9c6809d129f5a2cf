#!/bin/bash
# Compiles the code under test and the exploration engine once, to show that the offline toolchain works.
cd "$(dirname "$0")" && mkdir -p build && make -s -f lib/build.mk -j"$(nproc)" /verif/build/release/libdss.a
