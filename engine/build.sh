#!/bin/bash
# builds the analysis tools into /verif/build (nothing of the analysed repository is built here)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${VP_BUILD:-$here/../build}
mkdir -p "$out"
for t in tokflow irscan; do
	src=$here/$t/$t.cpp
	if [ ! -x "$out/$t" ] || [ "$src" -nt "$out/$t" ]; then
		g++ -std=c++20 -O2 "$src" $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//; s/-std=c++17//; s/-fno-rtti//') -fexceptions -frtti $(llvm-config-18 --ldflags) -lLLVM-18 -o "$out/$t.tmp$$"
		mv "$out/$t.tmp$$" "$out/$t"
	fi
done
