#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] [--replay FILE]
cd "$(dirname "$0")" || exit 2
export PATH=/opt/node/node_modules/.bin:$PATH TZ=UTC LANG=C.UTF-8
exec node lib/main.mjs "$@"
