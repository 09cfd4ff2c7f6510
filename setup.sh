#!/bin/bash
# Builds every check from the committed files.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/lib.sh"
build dexcheck dexcheck && build dexcheck unitcheck && build poolcheck poolcheck && build proxycheck proxycheck && build ownercheck ownercheck && build crankcheck crankcheck
