#!/bin/bash
# builds the extractor; $1 = output path
cd "$(dirname "$0")" && clang++ -O1 -std=c++17 -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//') ll2c.cpp -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18
