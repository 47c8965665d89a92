"""More behaviour-preserving edits: library idioms (io, itertools, functools, operator, re, match, named tuples)."""
BL = "nodes/node_bullet_list.py"
OL = "nodes/node_ordered_list.py"
TL = "nodes/node_task_list.py"
TB = "nodes/node_table.py"
TR = "nodes/node_table_row.py"
TC = "nodes/node_table_cell.py"
MH = "markdown_helpers.py"
MN = "mark_or_node.py"

TR_OLD = '''        cells = []
        for cell in self.content:
            md = cell.to_markdown(ignore_error=ignore_error)
            cells.append(md)
        return "| " + " | ".join(cells) + " |"
'''
TC_OLD = '''        lines = md.split("\\n")
        processed_lines = []
        for line in lines:
            stripped = line.lstrip(" ")
            leading_spaces = len(line) - len(stripped)
            if leading_spaces > 0:
                # Replace leading spaces with &nbsp;
                line = "&nbsp;" * leading_spaces + stripped
            processed_lines.append(line)

        return "<br>".join(processed_lines)
'''
CM_OLD = '''    if content is OPT:
        return ""
    else:
        lst = list()
        for node in content:
            try:
                md = node.to_markdown(ignore_error=ignore_error)
                lst.append(md)
            except Exception as e:  # pragma: no cover
                if ignore_error:
                    pass
                else:
                    raise e
        return concat.join(lst)
'''
BL_TAIL = '''                # Format the first line with bullet point
                bullet_content = item_content.split("\\n")[0]
                first_line = f"{indent}- {bullet_content}"
                lines.append(first_line)

                # Add remaining lines
                remaining_lines = item_content.split("\\n")[1:]
                if remaining_lines:
                    lines.extend(remaining_lines)
'''
OL_TAIL = '''                # Format the first line with number
                first_content = item_content.split("\\n")[0]
                first_line = f"{indent}{current_num}. {first_content}"
                lines.append(first_line)

                # Add remaining lines
                remaining_lines = item_content.split("\\n")[1:]
                if remaining_lines:
                    lines.extend(remaining_lines)
'''
ROWS = ["C19", "C11", "C12"]
CELLS = ["C18"]

REFACTORINGS = [
    dict(id="I01-stringio-row", props=ROWS, edits=[(TR, TR_OLD, '''        import io

        buf = io.StringIO()
        buf.write("|")
        empty = True
        for cell in self.content:
            buf.write(" " if empty else " | ")
            buf.write(cell.to_markdown(ignore_error=ignore_error))
            empty = False
        buf.write("  |" if empty else " |")
        return buf.getvalue()
''')]),
    dict(id="I02-partial-row", props=ROWS, edits=[(TR, TR_OLD, '''        from functools import partial

        def render(cell, ignore_error):
            return cell.to_markdown(ignore_error=ignore_error)

        cells = map(partial(render, ignore_error=ignore_error), self.content)
        return "| {} |".format(" | ".join(cells))
''')]),
    dict(id="I03-chain-row", props=ROWS, edits=[(TR, TR_OLD, '''        from itertools import chain

        cells = [cell.to_markdown(ignore_error=ignore_error) for cell in self.content]
        return "".join(chain(["| "], [" | ".join(cells)], [" |"]))
''')]),
    dict(id="I04-methodcaller-row", props=ROWS, edits=[(TR, TR_OLD, '''        from operator import methodcaller

        render = methodcaller("to_markdown", ignore_error=ignore_error)
        return "| " + " | ".join(render(cell) for cell in self.content) + " |"
''')]),
    dict(id="I05-walrus-cell", props=CELLS, edits=[(TC, TC_OLD, '''        processed_lines = []
        for line in md.split("\\n"):
            if (leading := len(line) - len(stripped := line.lstrip(" "))) > 0:
                line = "&nbsp;" * leading + stripped
            processed_lines.append(line)
        return "<br>".join(processed_lines)
''')]),
    dict(id="I06-split-cell-helper-tuple", props=CELLS, edits=[(TC, TC_OLD, '''        def split_indent(line):
            stripped = line.lstrip(" ")
            return len(line) - len(stripped), stripped

        pairs = [split_indent(line) for line in md.split("\\n")]
        return "<br>".join("&nbsp;" * width + rest for width, rest in pairs)
''')]),
    dict(id="I07-namedtuple-cell", props=CELLS, edits=[(TC, TC_OLD, '''        from typing import NamedTuple

        class Indented(NamedTuple):
            width: int
            rest: str

        items = []
        for line in md.split("\\n"):
            rest = line.lstrip(" ")
            items.append(Indented(len(line) - len(rest), rest))
        return "<br>".join("&nbsp;" * item.width + item.rest for item in items)
''')]),
    dict(id="I08-count-loop-cell", props=CELLS, edits=[(TC, TC_OLD, '''        out = []
        for line in md.split("\\n"):
            n = 0
            while n < len(line) and line[n] == " ":
                n += 1
            out.append("&nbsp;" * n + line[n:])
        return "<br>".join(out)
''')]),
    dict(id="I09-takewhile-cell", props=CELLS, edits=[(TC, TC_OLD, '''        from itertools import takewhile

        out = []
        for line in md.split("\\n"):
            n = sum(1 for _ in takewhile(lambda ch: ch == " ", line))
            out.append("&nbsp;" * n + line[n:])
        return "<br>".join(out)
''')]),
    dict(id="I10-suppress-content", props=["C10", "C11", "C12", "C18", "C22", "C07"], edits=[(MH, CM_OLD, '''    if content is OPT:
        return ""
    import contextlib

    lst = []
    for node in content:
        with contextlib.suppress(Exception) if ignore_error else contextlib.nullcontext():
            lst.append(node.to_markdown(ignore_error=ignore_error))
    return concat.join(lst)
''')]),
    dict(id="I11-deque-content", props=["C10", "C11", "C12", "C18", "C22", "C07"], edits=[(MH, CM_OLD, '''    from collections import deque

    if content is OPT:
        return ""
    parts = deque()
    for node in content:
        try:
            parts.append(node.to_markdown(ignore_error=ignore_error))
        except Exception:
            if not ignore_error:
                raise
    return concat.join(parts)
''')]),
    dict(id="I12-render-one-none", props=["C10", "C11", "C12", "C18", "C22", "C07"], edits=[(MH, CM_OLD, '''    def render(node):
        try:
            return node.to_markdown(ignore_error=ignore_error)
        except Exception:
            if not ignore_error:
                raise
            return None

    if content is OPT:
        return ""
    rendered = (render(node) for node in content)
    return concat.join(md for md in rendered if md is not None)
''')]),
    dict(id="I13-stack-content", props=["C10", "C11", "C12", "C18", "C22", "C07"], edits=[(MH, CM_OLD, '''    if content is OPT:
        return ""
    todo = list(content)
    todo.reverse()
    lst = []
    while todo:
        node = todo.pop()
        try:
            lst.append(node.to_markdown(ignore_error=ignore_error))
        except Exception as e:
            if not ignore_error:
                raise e
    return concat.join(lst)
''')]),
    dict(id="I14-match-type", props=["C17"], edits=[(TL, '''                # Determine checkbox state based on item.attrs.state
                checkbox = "[x]" if item.attrs.state == "DONE" else "[ ]"
''', '''                match item.attrs.state:
                    case "DONE":
                        checkbox = "[x]"
                    case _:
                        checkbox = "[ ]"
''')]),
    dict(id="I15-star-bullet", props=["C15", "C11"], edits=[(BL, BL_TAIL, '''                head, *tail = item_content.split("\\n")
                lines += [f"{indent}- {head}", *tail]
''')]),
    dict(id="I16-chain-bullet", props=["C15", "C11"], edits=[(BL, BL_TAIL, '''                from itertools import islice

                parts = item_content.split("\\n")
                lines.append("%s- %s" % (indent, parts[0]))
                lines.extend(islice(parts, 1, None))
''')]),
    dict(id="I17-partition-ordered", props=["C16", "C11"], edits=[(OL, OL_TAIL, '''                first, sep, rest = item_content.partition("\\n")
                lines.append(f"{indent}{current_num}. {first}")
                if sep:
                    lines.extend(rest.split("\\n"))
''')]),
    dict(id="I18-count-ordered", props=["C16", "C11"], edits=[(OL, '''            current_num = 1

        for item''', '''            current_num = 1

        from itertools import count

        numbers = count(current_num)
        for item'''), (OL, OL_TAIL + '''
                current_num += 1
''', '''                first_content, *remaining_lines = item_content.split("\\n")
                lines.append(f"{indent}{next(numbers)}. {first_content}")
                lines.extend(remaining_lines)
''')]),
    dict(id="I19-assert", props=ROWS, edits=[(TR, '''        cells = []
''', '''        assert isinstance(ignore_error, bool) or True, "flag"
        cells = []
''')]),
    dict(id="I20-format-map", props=["C24"], edits=[("nodes/node_media.py", '''            md = f"![{alt}](media:{self.attrs.id})"
''', '''            md = "![{alt}](media:{id})".format_map({"alt": alt, "id": self.attrs.id})
''')]),
    dict(id="I21-getattr-default", props=["C09", "C24"], edits=[(MH, '''    try:
        if isinstance(node.marks, list):
            for mark in node.marks:
                md = mark.to_markdown(md)
    # some node doesn't have marks attribute (don't support styles)
    except AttributeError:
        pass
    return md
''', '''    try:
        marks = node.marks
        if not isinstance(marks, list):
            return md
        it = iter(marks)
        while True:
            try:
                mark = next(it)
            except StopIteration:
                break
            md = mark.to_markdown(md)
    # some node doesn't have marks attribute (don't support styles)
    except AttributeError:
        pass
    return md
''')]),
    dict(id="I22-dict-merge", props=["C06", "C07"], edits=[(MN, '''        # Serialize content
        if "content" in data and data["content"] is not OPT:
            data["content"] = [c.to_dict() for c in self.content]

        # Serialize marks
        if "marks" in data and data["marks"] is not OPT:
            data["marks"] = [m.to_dict() for m in self.marks]

        return remove_optional(**data)
''', '''        # Serialize child elements
        children = {
            name: [child.to_dict() for child in getattr(self, name)]
            for name in ("content", "marks")
            if name in data and data[name] is not OPT
        }
        return remove_optional(**{**data, **children})
''')]),
    dict(id="I23-sentinel-get", props=["C02", "C04", "C05"], edits=[(MN, '''        for field_name, field in _fields.items():
            try:
                kwargs[field_name] = dct[field_name]
            except KeyError:
                pass
        return cls(**kwargs)
''', '''        missing = object()
        for field_name in _fields:
            value = dct.get(field_name, missing)
            if value is not missing:
                kwargs[field_name] = value
        return cls(**kwargs)
''')]),
    dict(id="I24-intersection", props=["C02", "C04", "C05"], edits=[(MN, '''        _fields = cls.get_fields()
        kwargs = {}
        for field_name, field in _fields.items():
            try:
                kwargs[field_name] = dct[field_name]
            except KeyError:
                pass
        return cls(**kwargs)
''', '''        names = cls.get_fields().keys() & dct.keys()
        return cls(**{name: dct[name] for name in names})
''')]),
    dict(id="I25-while-true-strip", props=["C13", "C14"], edits=[(MH, '''    while "\\n\\n\\n" in text:
        text = text.replace("\\n\\n\\n", "\\n\\n")
    return text
''', '''    while True:
        shorter = text.replace("\\n\\n\\n", "\\n\\n")
        if shorter == text:
            return text
        text = shorter
''')]),
    dict(id="I26-resub-strip", props=["C13", "C14"], edits=[(MH, '''    while "\\n\\n\\n" in text:
        text = text.replace("\\n\\n\\n", "\\n\\n")
    return text
''', '''    import re

    return re.compile("\\n{3,}").sub("\\n\\n", text)
''')]),
    dict(id="I27-cached-types", props=["C13", "C14", "C20"], edits=[(MH, '''def doc_content_to_markdown(
''', '''_SPACED_BLOCKS = frozenset({"bulletList", "orderedList", "codeBlock"})


def doc_content_to_markdown(
'''), (MH, '''                if node.is_type_of(
                    [
                        TypeEnum.bulletList,
                        TypeEnum.orderedList,
                        TypeEnum.codeBlock,
                    ]
                ):
''', '''                if node.type in _SPACED_BLOCKS:
''')]),
    dict(id="I28-header-flag", props=["C19", "C11", "C12"], edits=[(TB, '''        lines = list()
        for row in self.content:
            try:
                md = row.to_markdown(ignore_error=ignore_error)
                lines.append(md)
                if (
                    len(lines) == 1
                    and row.content
                    and row.content[0].is_type_of(TypeEnum.tableHeader)
                ):
                    lines.append("| " + " | ".join(["---"] * len(row.content)) + " |")
''', '''        lines = list()
        first = True
        for row in self.content:
            try:
                lines.append(row.to_markdown(ignore_error=ignore_error))
                is_first, first = first, False
                if not is_first or not row.content:
                    continue
                head = row.content[0]
                if head.is_type_of(TypeEnum.tableHeader):
                    lines.append("|" + " --- |" * len(row.content))
''')]),
    dict(id="I29-class-const", props=["C15", "C11"], edits=[(BL, '''        indent = "    " * level  # 4 spaces per level
''', '''        indent = "".ljust(4 * level)
''')]),
    dict(id="I30-removesuffix", props=["C15", "C11"], edits=[(BL, '''                remaining_lines = item_content.split("\\n")[1:]
                if remaining_lines:
                    lines.extend(remaining_lines)
''', '''                if "\\n" in item_content:
                    lines.append(item_content[len(bullet_content) + 1 :])
''')]),
]
