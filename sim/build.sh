#!/bin/bash
# builds the simulated kernel: build.sh OUT.so
set -e
gcc -O2 -fPIC -shared -fvisibility=hidden -fno-delete-null-pointer-checks -fno-builtin -w -o "$1" "$(dirname "$0")/kernel.c" -ldl -lpthread
