#!/bin/bash
# Nothing is built ahead: every check bundles /repo's working tree itself.
# This only verifies that the tools the checks need are there.
cd "$(dirname "$0")" || exit 2
export PATH=/opt/node/node_modules/.bin:$PATH
node -e '
  const { loadEsbuild, REPO } = await import("./lib/bundle.mjs");
  loadEsbuild();
  console.log("node", process.version, "repo", REPO);
' --input-type=module
