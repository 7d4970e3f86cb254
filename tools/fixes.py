#!/usr/bin/env python3
"""Writes /verif/known_findings.txt: the defects repaired in /repo (and any recorded ones), by property."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
# first word(s) of the commit subject -> property; ranges in commit order
RANGES = [("C01", ["sse4 base64", "base64 fallback", "reject data URIs whose"]), ("C02", ["copying, moving and re-assigning a URI", "URI authorities", "a question mark in", "a colon in the path", "percent-decoding read", "percent-encoded delimiters"]),
 ("C04", ["nodes whose matrix is not an array", "accessors with an unknown component", "accessor type names", "an empty asset version", "light types with", "base color factors with more", "material color factors with too few", "unknown buffer view targets", "texture transforms with more", "errors in material extensions", "nodes with weights were rejected"]),
 ("C05", ["nodes with a matrix and extensions", "AllowDouble and KHR", "texture coordinate indices leaked", "material variant indices"]),
 ("C06", ["physics combine modes", "implicit shapes without", "the geometry of a trigger"]), ("C07", ["unknown root properties"]), ("C03", ["scenes without nodes"]),
 ("C18", ["the reverse iterators of SmallVector", "SmallVector::", "moving a SmallVector"]),
 ("C19", ["Optional<float>", "swapping an empty", "Optional::or_else", "assigning an Optional", "a moved-from StaticVector", "StaticVector::", "comparing StaticVectors", "move assigning AccessorBoundsArray", "Accessor::updateBounds", "types.hpp uses"]),
 ("C23", ["the prefix increment", "dividing a quaternion", "constructing a non-square", "comparing non-square", "multiplying a non-square", "decomposing a"]),
 ("C15", ["copyFromAccessor", "copyComponentsFromAccessor", "component type of 32-bit", "IterableAccessor did not", "elements of accessors without"]), ("C16", ["sparse index lookup", "dereferencing an accessor iterator"]),
 ("C09", ["memory map the padding", "self move assignment of Mapped", "GltfFileStream:", "GltfDataBuffer ignored"]), ("C08", ["determineGltfFileType", "GLB chunks could", "a GLB which ends"]),
 ("C20", ["an external file which could not", "the binary chunk of a GLB was dropped", "the path of a file URI"]), ("C11", ["the binary chunk of an earlier"]),
 ("C13", ["escapeString", "prettyPrintJson", "the cone angles", "commas between", "a mesh without primitives", "names of attributes", "a texture with only", "the rigid bodies of nodes", "collision filters without", "invalid combine modes"]),
 ("C12", ["an exporter which failed", "ExportOptions::ValidateAsset", "the alpha cutoff", "the exporter read behind", "images held by", "exported URIs did", "exporting a GLB read"]), ("C21", ["the extras of collision"]),
 ("C14", ["distinct buffers and images", "WebP images", "files could not be exported", "failing to write", "an exported buffer or image could"]), ("C22", ["generated mesh indices"]), ("C17", ["validate "]), ("C10", ["accessor bounds outside"]), ("C26", ["the library did not compile without", "defaults of double precision"]), ("C27", ["byteswap"])]
def prop(subject):
    for p, starts in RANGES:
        for s in starts:
            if subject.startswith(s): return p
    raise SystemExit("no property for: " + subject)
out = subprocess.run(["git", "-C", REPO, "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout
with open(V + "/known_findings.txt", "w") as f:
    f.write("# Genuine defects of the library found by the checks. 'fixed' entries are repaired in /repo and suppress nothing;\n# 'finding: property=ID key=KEY text' entries would be reported as KNOWN-FINDING (there are none).\n")
    for l in out.splitlines():
        m = re.match(r"(\w+) fix: (.*)", l)
        if m: f.write("fixed: property=%s %s %s\n" % (prop(m.group(2)), m.group(1), m.group(2)))
