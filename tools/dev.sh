#!/bin/bash
# tools/dev.sh: fresh scratch copy of the working trees at /tmp/dev/{repo,verif} (edit /tmp/dev/repo freely)
mkdir -p /tmp/dev
rsync -a --delete --exclude seeded --exclude .git /verif/ /tmp/dev/verif/
rsync -a --delete --exclude target /repo/ /tmp/dev/repo/
sed -i 's#"/repo"#"/tmp/dev/repo"#' /tmp/dev/verif/harness/Cargo.toml /tmp/dev/verif/checks/*.py /tmp/dev/verif/engine/*.py
