#!/bin/bash
# Builds everything the checks need from the committed files.
set -e
cd "$(dirname "$0")"
bin/build_tools.sh
rm -rf "$PWD/build/dump-setup"
for p in imap-next proxy tag-generator; do bin/dump.sh $p "$PWD/build/dump-setup"; done
rm -rf "$PWD/build/dump-setup"
