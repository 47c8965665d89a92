"""Which child and mark types the contracts admit."""
from .table import CLASSES

# The format's nesting rules differ between its versions (and between the editor and the API), so the
# contracts of the containers do not rely on them: a block container may hold any block, an inline
# container any inline node, and a marked element any mark that cannot fail on its Markdown.
MARKS = [v["type"] for v in CLASSES.values() if v["kind"] == "mark"]
BLOCKS = tuple(sorted({t for c in ("NodeDoc", "NodeListItem", "NodePanel", "NodeBlockquote", "NodeExpand", "NodeNestedExpand", "NodeTableCell", "NodeTableHeader")
                       for f in CLASSES[c]["fields"] if f[2][0] == "content" for t in f[2][1]}))
INLINE = tuple(sorted({t for c in ("NodeParagraph", "NodeHeading", "NodeTaskItem", "NodeDecisionItem", "NodeCaption")
                       for f in CLASSES[c]["fields"] if f[2][0] == "content" for t in f[2][1]}))
ANYMARK = tuple(sorted(t for t in MARKS if t != "code"))


def allowed(kt):
    """the types of the children of a field, from those its format names"""
    ts = tuple(kt[1])
    if kt[0] == "marks":
        return tuple(sorted(set(ANYMARK) | set(ts)))
    for group in (BLOCKS, INLINE):
        if len(ts) > 1 and set(ts) <= set(group):
            return group
    if ts == ("media",):
        return ("caption", "media")
    return ts
