#!/bin/bash
# developer helper: build one harness into /tmp
exec g++ -std=c++11 -O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -Wno-deprecated-declarations -I/repo -I/verif/harness /verif/harness/$1.cpp -o /tmp/$1
