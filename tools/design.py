#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + per-property text (tools/design_props.md) + tools/design_tail.md"""
import os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(V+'/DESIGN.md','w').write('\n'.join(open(V+'/tools/design_%s.md'%x).read().rstrip()+'\n' for x in ('head','props','tail')))
