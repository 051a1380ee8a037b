#!/bin/sh
# replay.sh FILE : executes a recorded run again, printing every event. Exit 1 if it violates its property.
f="$(realpath "$1")"
cd "$(dirname "$0")" || exit 2
KSIM_ROOT="$(pwd)"; export KSIM_ROOT
tools/build.sh || exit 2
exec target/debug/ksim replay "$f"
