"""Specifications.

Each function states, for one element class, the Markdown documented for it.
They are executed symbolically (postcondition of the real method) and concretely
(oracle for replaying a failed obligation), so they are written against the
elements' fields only and never call the package's helpers.  Children are
rendered through `child.to_markdown`, i.e. through the child's own contract.
"""
import re
import textwrap
import datetime

from func_args.api import OPT


# -- helpers used by the interpreter's models of builtins ----------------------
def _first(xs, default):
    for x in xs:
        return x
    return default


def _first_or_stop(xs):
    for x in xs:
        return x
    raise StopIteration


def _any(xs):
    for x in xs:
        if x:
            return True
    return False


def _all(xs):
    for x in xs:
        if not x:
            return False
    return True


def _sum(xs, start):
    for x in xs:
        start = start + x
    return start


def _flatten(xs):
    out = []
    for x in xs:
        for y in x:
            out.append(y)
    return out


def _reduce(f, xs, *start):
    if start:
        acc = start[0]
        for x in xs:
            acc = f(acc, x)
        return acc
    xs = list(xs)
    acc = xs[0]
    for x in xs[1:]:
        acc = f(acc, x)
    return acc


def _contains(xs, y):
    for x in xs:
        if x == y:
            return True
    return False


def child_fails(c):
    """modelled symbolically; concretely: does c fail when errors are ignored?"""
    try:
        c.to_markdown(ignore_error=True)
    except Exception:
        return True
    return False


def survivors(content):
    return [c for c in content if not child_fails(c)]


# -- building blocks ------------------------------------------------------------
def collapse(s):
    return re.sub(r"\n{3,}", "\n\n", s)


def render_all(content, ie):
    out = []
    if content is OPT:
        return out
    for c in content:
        try:
            out.append(c.to_markdown(ignore_error=ie))
        except Exception:
            if not ie:
                raise
    return out


def text_of(content, ie):
    return "".join(render_all(content, ie))


def apply_marks(md, marks):
    if marks is OPT:
        return md
    for m in marks:
        md = m.to_markdown(md)
    return md


def without_marks(self):
    """the same element without marks (symbolically: the marks field unset)"""
    import dataclasses

    return dataclasses.replace(self, marks=OPT)


def marked(self, ie):
    return apply_marks(without_marks(self).to_markdown(ignore_error=ie), self.marks)


def marked_paragraph(self, ie):
    return apply_marks(text_of(self.content, ie), self.marks) + "\n"


def doc_body(content, ie):
    if content is OPT:
        return ""
    blocks = []
    for c in content:
        try:
            md = c.to_markdown(ignore_error=ie)
        except Exception:
            if not ie:
                raise
            continue
        if c.type in ("bulletList", "orderedList", "codeBlock"):
            md = "\n" + md + "\n"
        blocks.append(md)
    return collapse("\n".join(blocks))


def quoted(body):
    return textwrap.indent(body, "> ", lambda line: True) + "\n"


def item_text(item, nested, level, ie):
    blocks = []
    if item.content is OPT:
        return ""
    for node in item.content:
        try:
            if node.type == nested:
                md = node.to_markdown(level=level + 1, ignore_error=ie)
            else:
                md = node.to_markdown(ignore_error=ie).rstrip()
        except Exception:
            if not ie:
                raise
            continue
        blocks.append(md)
    return "\n".join(blocks)


# -- containers -------------------------------------------------------------------
def NodeDoc(self, ie):
    return doc_body(self.content, ie)


def NodeExpand(self, ie):
    return doc_body(self.content, ie)


def NodeNestedExpand(self, ie):
    return doc_body(self.content, ie)


def NodeParagraph(self, ie):
    return apply_marks(text_of(self.content, ie), self.marks) + "\n"


def NodeHeading(self, ie):
    return "\n\n" + "#" * self.attrs.level + " " + text_of(self.content, ie) + "\n\n"


def NodeListItem(self, ie):
    return text_of(self.content, ie)


def NodeTaskItem(self, ie):
    return text_of(self.content, ie)


def NodeMediaSingle(self, ie):
    return text_of(self.content, ie)


def NodeBulletList(self, ie, level):
    items = []
    for item in self.content:
        items.append("    " * level + "- " + item_text(item, "bulletList", level, ie))
    return "\n".join(items)


def NodeOrderedList(self, ie, level):
    n = 1
    if level == 0 and self.attrs is not OPT and self.attrs.order is not OPT:
        n = self.attrs.order
    items = []
    for item in self.content:
        items.append("    " * level + str(n) + ". " + item_text(item, "orderedList", level, ie))
        n = n + 1
    return "\n".join(items)


def NodeTaskList(self, ie, level):
    lines = []
    for item in self.content:
        if item.type == "taskItem":
            text = text_of(item.content, ie).rstrip()
            if item.attrs.state == "DONE":
                box = "[x]"
            else:
                box = "[ ]"
            lines.append("    " * level + "- " + box + " " + text)
        elif item.type == "taskList":
            try:
                lines.append(item.to_markdown(level=level + 1, ignore_error=ie))
            except Exception:
                if not ie:
                    raise
    return "\n".join(lines)


def NodeTableCell(self, ie):
    text = text_of(self.content, ie).replace("|", "\\|")
    lines = []
    for line in text.split("\n"):
        body = line.lstrip(" ")
        lines.append("&nbsp;" * (len(line) - len(body)) + body)
    return "<br>".join(lines)


def NodeTableHeader(self, ie):
    return NodeTableCell(self, ie)


def NodeTableRow(self, ie):
    return "| " + " | ".join(render_all(self.content, ie)) + " |"


def NodeTable(self, ie):
    lines = []
    for row in self.content:
        try:
            md = row.to_markdown(ignore_error=ie)
        except Exception:
            if not ie:
                raise
            continue
        lines.append(md)
        if len(lines) == 1 and len(row.content) > 0 and row.content[0].type == "tableHeader":
            lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
    return "\n".join(lines)


def NodeBlockquote(self, ie):
    return quoted(doc_body(self.content, ie))


def NodePanel(self, ie):
    return quoted(collapse("**" + self.attrs.panelType.upper() + "**\n\n" + doc_body(self.content, ie)))


def NodeDecisionItem(self, ie):
    out = []
    texts = 0
    gap = False
    for line in text_of(self.content, ie).rstrip().split("\n"):
        line = line.rstrip()
        if line:
            out.append("> " + line)
            texts = texts + 1
            gap = False
        elif texts > 1 and not gap:
            out.append(">")
            gap = True
    return "\n".join(out)


def NodeDecisionList(self, ie):
    return "\n\n".join(render_all(self.content, ie))


def NodeCodeBlock(self, ie):
    lang = ""
    if self.attrs is not OPT and self.attrs.language is not OPT and self.attrs.language != "none":
        lang = self.attrs.language
    return "```" + lang + "\n" + text_of(self.content, ie) + "\n```"


# -- leaves -------------------------------------------------------------------------
def NodeText(self, ie):
    return apply_marks(self.text, self.marks)


def NodeMention(self, ie):
    if self.attrs.text is not OPT:
        return self.attrs.text
    return "@Unknown"


def NodeEmoji(self, ie):
    if self.attrs.text is not OPT:
        return self.attrs.text
    return self.attrs.shortName


def NodeStatus(self, ie):
    return "`" + self.attrs.text + "`"


def NodeHardBreak(self, ie):
    return "  \n"


def NodeRule(self, ie):
    return "\n\n---\n\n"


def NodeDate(self, ie):
    day = int(self.attrs.timestamp) // 86400000
    return (datetime.date(1970, 1, 1) + datetime.timedelta(days=day)).isoformat()


def card(url):
    return "[" + url + "](" + url + ")"


def NodeInlineCard(self, ie):
    if self.attrs.url is not OPT:
        return card(self.attrs.url)
    raise NotImplementedError


def NodeBlockCard(self, ie):
    if self.attrs.url is not OPT:
        return "\n" + card(self.attrs.url) + "\n"
    raise NotImplementedError


def NodeEmbedCard(self, ie):
    return "\n" + card(self.attrs.url) + "\n"


def NodeMedia(self, ie):
    a = self.attrs
    if a.type == "link":
        return "[media]"
    alt = "media"
    if a.alt is not OPT:
        alt = a.alt
    if a.type == "external":
        return apply_marks("![" + alt + "](" + a.url + ")", self.marks)
    return apply_marks("![" + alt + "](media:" + a.id + ")", self.marks)


def NodeMediaInline(self, ie):
    return ""


def NodeMediaGroup(self, ie):
    return ""


def NodeCaption(self, ie):
    return ""


def NodeExtension(self, ie):
    a = self.attrs
    if a.text is not OPT and a.text != "":
        return "[Extension: " + a.extensionKey + "] " + a.text
    return "[Extension: " + a.extensionType + "/" + a.extensionKey + "]"


# -- marks ----------------------------------------------------------------------------
def wrapped(text, fence):
    if text.strip() == "":
        return text
    return fence + text + fence


def MarkStrong(self, text):
    return wrapped(text, "**")


def MarkEm(self, text):
    return wrapped(text, "*")


def MarkStrike(self, text):
    return wrapped(text, "~~")


def MarkCode(self, text):
    if "\n" in text:
        raise ValueError
    if text.strip() == "":
        return text
    return "`` " + text + " ``"


def MarkLink(self, text):
    label = text
    if self.attrs.title is not OPT:
        label = self.attrs.title
    return "[" + label + "](" + self.attrs.href + ")"


def MarkIndentation(self, text):
    return "\t" * self.attrs.level + text


def identity_mark(self, text):
    return text


# -- parsing ---------------------------------------------------------------------
# predicates of one entry of a content or marks list; the contract of parse_node /
# parse_mark gives them their meaning (dv/parse.py)
def unsupported(entry, kind):
    "is the entry's type not one of the supported types?"


def broken(entry, kind):
    "does parsing the entry raise another error?"


def parse_error(entry, kind):
    "that error"


def parsed(entry, kind):
    "the element the entry parses to"


def type_string(entry):
    "the entry's type"


def child_warnings(entry):
    "what parsing a supported child itself logs"


def kept(entries, kind):
    out = []
    for d in entries:
        if unsupported(d, kind):
            continue
        if broken(d, kind):
            raise parse_error(d, kind)
        out.append(parsed(d, kind))
    return out


def warnings_of(entries, kind, warn):
    out = []
    for d in entries:
        if unsupported(d, kind):
            if warn:
                out.append(type_string(d))
        elif kind == "node":
            out.append(child_warnings(d))
    return out


def serialised(elements):
    return [x.to_dict() for x in elements]


def is_one_of(type_string, expected):
    for e in expected:
        if e.value == type_string:
            return True
    return False
