#!/bin/sh
# Each check builds its own monitor from /repo's working tree; setup only verifies that the tool chain is usable.
set -e
cd "$(dirname "$0")/.."
python3 -m py_compile run.py harness/*.py
mkdir -p _build evidence
printf 'int main(){return 0;}' > _build/t.cpp
g++ -std=c++11 -fsanitize=address,undefined _build/t.cpp -o _build/t && _build/t
g++ -std=c++11 -fsanitize=thread _build/t.cpp -o _build/t
rm -f /verif/_build/t /verif/_build/t.cpp
echo setup ok
