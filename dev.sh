#!/bin/bash
# dev.sh ID harness... : build IR and run selected harnesses (development aid)
VP_BUDGET=${T:-120} VP_ONLY="$2" python3 check.py $1 thorough
