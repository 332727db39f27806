#!/bin/bash
# Runs demo.js on the page's code in the current directory's tree, with a small DOM in place of a browser's.
exec node "$(cd "$(dirname "$0")" && pwd)/demo.js"
