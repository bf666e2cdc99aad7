#!/bin/sh
# linker options for the functions wrap.cc wraps
sed -n -e 's/^R([^,]*, \([a-z_0-9]*\),.*/-Wl,--wrap=\1/p' -e 's/.*__wrap_\(g_[a-z_]*\)(.*\.\.\.)/-Wl,--wrap=\1/p' "$(dirname "$0")/wrap.cc"
