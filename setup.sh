#!/bin/bash
# Builds the checker once, which shows that everything it needs is there and
# warms the Go build cache. The checks build for themselves all the same.
exec bash "$(dirname "$0")/check.sh" C06
