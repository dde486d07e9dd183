#!/bin/bash
# bring the fixes made in the scratch clone /tmp/wr into /repo (fast-forward only)
git -C /repo pull -q --ff-only /tmp/wr HEAD && git -C /repo log --oneline | head -3
