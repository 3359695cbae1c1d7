"""builds the exporter and the generated stub headers"""
import os
import build
os.makedirs(build.BUILD, exist_ok=True)
build.ensure_tool()
build.ensure_stubs()
print('ready')
