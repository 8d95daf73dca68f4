#!/bin/bash
# check.sh <property>: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
bash "$V/setup.sh" >/dev/null || { echo "error: the framework does not build"; exit 2; }
exec "$V/bin/govc" check -verif "$V" -repo /repo -prop "$1"
