#!/bin/bash
# Nothing is built in advance: every check imports /repo's working tree.
exec bash "$(dirname "$0")/run.sh" --smoke
