#!/bin/sh
# run with cwd /repo
here=$(cd "$(dirname "$0")" && pwd)
npm=$(dirname "$(readlink -f "$(command -v npm)")")/../node_modules
NODE_PATH="$npm" exec node "$here/demo.js"
