#!/bin/bash
# Checks that what the checks need is there: TLC parses the specification, the SDK bundles.
set -e
cd "$(dirname "$0")/.."
for m in Model HookModel PageModel StoreModel Trace; do
  (cd spec && java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY $m.tla > /dev/null)
done
dir=$(mktemp -d)
node -e 'import("./harness/build.mjs").then((m) => m.build(process.argv[1]))' "$dir"
rm -rf "${dir:?}"
mkdir -p evidence
