#!/bin/bash
# Builds the analysis engines into /verif/build (or $1)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
build() { # name, sources...
  local name=$1; shift
  local s fresh=1
  for s in "$@"; do [ "$out/$name" -nt "$here/$s" ] || fresh=0; done
  [ $fresh = 1 ] && return 0
  local tmp=$(mktemp "$out/$name.XXXXXX")
  g++ -O2 -g1 -std=c++17 -fno-rtti -w -I"$(llvm-config-18 --includedir)" -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    "$here/$1" -o "$tmp" -L"$(llvm-config-18 --libdir)" -lLLVM-18 || { rm -f "$tmp"; return 1; }
  mv -f "$tmp" "$out/$name"
}
build lanes lanes.cpp exec.h intrin.h main.h bdd.h
build alias alias.cpp
