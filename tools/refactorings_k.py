"""More behaviour-preserving edits: shared helpers between classes, generators, guard clauses, aliases, dispatch."""
BL = "nodes/node_bullet_list.py"
OL = "nodes/node_ordered_list.py"
TL = "nodes/node_task_list.py"
TB = "nodes/node_table.py"
TR = "nodes/node_table_row.py"
TC = "nodes/node_table_cell.py"
TH = "nodes/node_table_header.py"
DI = "nodes/node_decision_item.py"
DL = "nodes/node_decision_list.py"
PN = "nodes/node_panel.py"
ME = "nodes/node_media.py"
BC = "nodes/node_block_card.py"
EC = "nodes/node_embed_card.py"
TX = "nodes/node_text.py"
MH = "markdown_helpers.py"
MN = "mark_or_node.py"
PA = "nodes/parse_node.py"
PM = "marks/parse_mark.py"
TE = "type_enum.py"

g = {}
exec(open("/verif/tools/refactorings_j.py").read(), g)
TR_OLD, TC_OLD, TB_OLD, DL_OLD = g["TR_OLD"], g["TC_OLD"], g["TB_OLD"], g["DL_OLD"]

CM = '''    if content is OPT:
        return ""
    else:
        lst = list()
        for node in content:
            try:
                md = node.to_markdown(ignore_error=ignore_error)
                lst.append(md)
            except Exception as e:  # pragma: no cover
                if ignore_error:
                    pass
                else:
                    raise e
        return concat.join(lst)
'''
DM = '''    if content is OPT:
        return ""
    else:
        lst = list()
        for node in content:
            # print("----- Work on a new node -----")  # for debug only
            try:
                # Add extra newlines around block elements that need separation
                if node.is_type_of(
                    [
                        TypeEnum.bulletList,
                        TypeEnum.orderedList,
                        TypeEnum.codeBlock,
                    ]
                ):
                    md = "\\n" + node.to_markdown(ignore_error=ignore_error) + "\\n"
                else:
                    md = node.to_markdown(ignore_error=ignore_error)
                # print(f"{node = }")  # for debug only
                # print(f"{md = }")  # for debug only
                lst.append(md)
            except Exception as e:  # pragma: no cover
                if ignore_error:
                    pass
                else:
                    raise e

    md = strip_double_empty_line(concat.join(lst))
    return md
'''
STYLE = '''    try:
        if isinstance(node.marks, list):
            for mark in node.marks:
                md = mark.to_markdown(md)
    # some node doesn't have marks attribute (don't support styles)
    except AttributeError:
        pass
    return md
'''
FIELDS = '''        _fields = cls.get_fields()
        kwargs = {}
        for field_name, field in _fields.items():
            try:
                kwargs[field_name] = dct[field_name]
            except KeyError:
                pass
        return cls(**kwargs)
'''
GET = '''        try:
            return _CLASS_FIELD[cls]
        except KeyError:
            _CLASS_FIELD[cls] = {field.name: field for field in dataclasses.fields(cls)}
            return _CLASS_FIELD[cls]
'''
CONT = '''                new_content = []
                for d in dct["content"]:
                    try:
                        content = parse_node(d)
                        new_content.append(content)
                    except UnimplementedTypeError as e:
                        # Skip unimplemented node types gracefully
                        if settings.WARN_UNIMPLEMENTED_TYPE:
                            logger.warning(str(e))
                        # Skip this node and continue
                    # Other exceptions propagate normally
                dct["content"] = new_content
'''
MARKS = '''                new_marks = []
                for d in dct["marks"]:
                    try:
                        mark = parse_mark(d)
                        new_marks.append(mark)
                    except UnimplementedTypeError as e:
                        # Skip unimplemented mark types gracefully
                        if settings.WARN_UNIMPLEMENTED_TYPE:
                            logger.warning(str(e))
                        # Skip this mark and continue
                    # Other exceptions propagate normally
                dct["marks"] = new_marks
'''
PARSE_N = '''    type_ = dct["type"]
    try:
        klass = NODE_TYPE_TO_CLASS_MAPPING[type_]
    except KeyError:
        raise UnimplementedTypeError(type_, "node")
    return klass.from_dict(dct)
'''
MATCH = '''    if not isinstance(expected_types, list):
        expected_types = [expected_types]
    expected_values = [t.value for t in expected_types]
    return type_value in expected_values'''
MEDIA = '''        # For external media, return as markdown image/link
        if self.attrs.is_external_type() and isinstance(self.attrs.url, str):
            alt = self.attrs.alt if isinstance(self.attrs.alt, str) else "media"
            md = f"![{alt}]({self.attrs.url})"
            return add_style_to_markdown(md, self)
        # For internal media, return placeholder with id
        elif self.attrs.is_file_type():
            alt = self.attrs.alt if isinstance(self.attrs.alt, str) else "media"
            md = f"![{alt}](media:{self.attrs.id})"
            return add_style_to_markdown(md, self)
        elif self.attrs.is_link_type():
            return "[media]"  # TODO: implement link type markdown
        else:
            raise TypeError("Invalid media node attributes")
'''
TASK = '''                # Process the task item content (text nodes)
                content_parts = []
                for node in item.content if item.content is not OPT else []:
                    try:
                        md = node.to_markdown(ignore_error=ignore_error)
                        content_parts.append(md)
                    except Exception as e:
                        if ignore_error:
                            pass
                        else:
                            raise e

                # Join content parts (they should be on the same line)
                # Use rstrip() on the final result to remove trailing whitespace
                item_content = "".join(content_parts).rstrip()
'''
DEC = '''        prefixed_lines = []
        line_count = 0  # Count of non-empty content lines
        prev_was_empty = False
        for line in raw_lines:
            line = line.rstrip()
            is_empty = not line

            if is_empty:
                # Skip empty lines after only the first content line
                # (skip leading blanks after title)
                # Also skip consecutive empty lines
                if line_count <= 1 or prev_was_empty:
                    continue
                prefixed_lines.append(">")
                prev_was_empty = True
            else:
                prefixed_lines.append(f"> {line}")
                line_count += 1
                prev_was_empty = False

        return "\\n".join(prefixed_lines)
'''
BLREST = '''                # Join the content lines
                item_content = "\\n".join(content_lines)

                # Format the first line with bullet point
                bullet_content = item_content.split("\\n")[0]
                first_line = f"{indent}- {bullet_content}"
                lines.append(first_line)

                # Add remaining lines
                remaining_lines = item_content.split("\\n")[1:]
                if remaining_lines:
                    lines.extend(remaining_lines)

        return "\\n".join(lines)
'''
MH_USERS = ["C10", "C11", "C12", "C18", "C22", "C07"]

REFACTORINGS = [
    dict(id="K01-try-else", props=MH_USERS, edits=[(MH, CM, '''    if content is OPT:
        return ""
    rendered = []
    for node in content:
        try:
            md = node.to_markdown(ignore_error=ignore_error)
        except Exception:
            if not ignore_error:
                raise
        else:
            rendered.append(md)
    return concat.join(rendered)
''')]),
    dict(id="K02-shared-loop", props=MH_USERS, edits=[(MH, CM, '''    if content is OPT:
        return ""
    return concat.join(_render_each(content, ignore_error, _plain))
'''), (MH, DM, '''    if content is OPT:
        return ""
    return strip_double_empty_line(concat.join(_render_each(content, ignore_error, _padded)))
'''), (MH, "def content_to_markdown(", '''def _plain(node, ignore_error):
    return node.to_markdown(ignore_error=ignore_error)


def _padded(node, ignore_error):
    md = node.to_markdown(ignore_error=ignore_error)
    if node.is_type_of([TypeEnum.bulletList, TypeEnum.orderedList, TypeEnum.codeBlock]):
        md = "\\n" + md + "\\n"
    return md


def _render_each(nodes, ignore_error, render):
    result = []
    for node in nodes:
        try:
            result.append(render(node, ignore_error))
        except Exception:
            if not ignore_error:
                raise
    return result


def content_to_markdown(''')]),
    dict(id="K03-generator", props=["C11", "C12", "C22"], edits=[(MH, DM, '''    if content is OPT:
        return ""

    def blocks():
        for node in content:
            try:
                md = node.to_markdown(ignore_error=ignore_error)
                pad = "\\n" if node.is_type_of([TypeEnum.bulletList, TypeEnum.orderedList, TypeEnum.codeBlock]) else ""
            except Exception:
                if not ignore_error:
                    raise
                continue
            yield pad + md + pad

    return strip_double_empty_line(concat.join(blocks()))
''')]),
    dict(id="K04-style-guard", props=["C23", "C24", "C09", "C07"], edits=[(MH, STYLE, '''    try:
        marks = node.marks
        if not isinstance(marks, list):
            return md
        for mark in marks:
            md = mark.to_markdown(md)
        return md
    except AttributeError:
        return md
''')]),
    dict(id="K05-cell-shared", props=["C19", "C20", "C21"], edits=[(TC, TC_OLD, '''        return "<br>".join(keep_indent(line) for line in md.split("\\n"))
'''), (TC, "@dataclasses.dataclass(frozen=True)\nclass NodeTableCell(", '''def keep_indent(line: str) -> str:
    """Leading spaces as ``&nbsp;``."""
    n = 0
    while n < len(line) and line[n] == " ":
        n += 1
    return "&nbsp;" * n + line[n:]


@dataclasses.dataclass(frozen=True)
class NodeTableCell(''')]),
    dict(id="K06-decision-runs", props=["C16"], edits=[(DI, DEC, '''        out = []
        titled = False
        body = False
        for line in (raw.rstrip() for raw in raw_lines):
            if line:
                out.append("> " + line)
                body = titled
                titled = True
            elif body and out[-1] != ">":
                out.append(">")
        return "\\n".join(out)
''')]),
    dict(id="K07-bullet-partition", props=["C13", "C15", "C11"], edits=[(BL, BLREST, '''                head, *rest = "\\n".join(content_lines).split("\\n")
                lines.append(indent + "- " + head)
                lines += rest

        return "\\n".join(lines)
''')]),
    dict(id="K08-bullet-prefix", props=["C13", "C15"], edits=[(BL, BLREST, '''                lines.append(f"{indent}- " + "\\n".join(content_lines))

        return "\\n".join(lines)
''')]),
    dict(id="K09-task-helper", props=["C14", "C12", "C11"], edits=[(TL, TASK, '''                children = [] if item.content is OPT else item.content
                item_content = ""
                for node in children:
                    try:
                        item_content += node.to_markdown(ignore_error=ignore_error)
                    except Exception:
                        if not ignore_error:
                            raise
                item_content = item_content.rstrip()
''')]),
    dict(id="K10-media-alt", props=["C24", "C09"], edits=[(ME, MEDIA, '''        attrs = self.attrs
        if attrs.is_external_type() and isinstance(attrs.url, str):
            target = attrs.url
        elif attrs.is_file_type():
            target = f"media:{attrs.id}"
        elif attrs.is_link_type():
            return "[media]"
        else:
            raise TypeError("Invalid media node attributes")
        alt = "media"
        if isinstance(attrs.alt, str):
            alt = attrs.alt
        return add_style_to_markdown("![{}]({})".format(alt, target), self)
''')]),
    dict(id="K11-fields-filter", props="parsing", edits=[(MN, FIELDS, '''        missing = object()
        found = {name: dct.get(name, missing) for name in cls.get_fields()}
        return cls(**{name: value for name, value in found.items() if value is not missing})
''')]),
    dict(id="K12-fields-get", props=["C25", "C27", "C01"], edits=[(MN, GET, '''        fields = _CLASS_FIELD.get(cls)
        if fields is None:
            fields = {f.name: f for f in dataclasses.fields(cls)}
            _CLASS_FIELD[cls] = fields
        return fields
''')]),
    dict(id="K13-children-helper", props="parsing", edits=[(MN, CONT, '''                dct["content"] = _implemented(parse_node, dct["content"])
'''), (MN, MARKS, '''                dct["marks"] = _implemented(parse_mark, dct["marks"])
'''), (MN, "T_FIELDS = dict", '''def _implemented(parse, items):
    result = []
    for item in items:
        try:
            result.append(parse(item))
        except UnimplementedTypeError as e:
            if settings.WARN_UNIMPLEMENTED_TYPE:
                logger.warning(str(e))
    return result


T_FIELDS = dict''')]),
    dict(id="K14-parse-get", props=["C01", "C02", "C03", "C05", "C06"], edits=[(PA, PARSE_N, '''    type_ = dct["type"]
    if type_ not in NODE_TYPE_TO_CLASS_MAPPING:
        raise UnimplementedTypeError(type_, "node")
    return NODE_TYPE_TO_CLASS_MAPPING[type_].from_dict(dct)
''')]),
    dict(id="K15-match-any", props=["C26", "C10", "C13", "C15"], edits=[(TE, MATCH, '''    if isinstance(expected_types, list):
        return any(type_value == t.value for t in expected_types)
    return type_value == expected_types.value
''')]),
    dict(id="K16-table-two", props=["C19", "C12"], edits=[(TB, TB_OLD, '''        lines = []
        for row in self.content:
            try:
                rendered = row.to_markdown(ignore_error=ignore_error)
                first = not lines
                lines.append(rendered)
                if first and row.content and row.content[0].is_type_of(TypeEnum.tableHeader):
                    lines.append("| " + " | ".join("---" for _ in row.content) + " |")
            except Exception:
                if not ignore_error:
                    raise
        return "\\n".join(lines)
''')]),
    dict(id="K17-decision-list", props=["C16", "C12"], edits=[(DL, DL_OLD, '''        md = ""
        first = True
        for item in self.content:
            if not item.is_type_of(TypeEnum.decisionItem):
                continue
            try:
                block = item.to_markdown(ignore_error=ignore_error)
            except Exception:
                if ignore_error:
                    continue
                raise
            md += block if first else "\\n\\n" + block
            first = False
        return md
''')]),
    dict(id="K18-panel-lines", props=["C17"], edits=[(PN, '''        return (
            textwrap.indent(
                strip_double_empty_line(
                    "\\n".join(
                        [
                            f"**{self.attrs.panelType.upper()}**",
                            "",
                            doc_content_to_markdown(
                                content=self.content,
                                ignore_error=ignore_error,
                            ),
                        ]
                    )
                ),
                prefix="> ",
                predicate=lambda line: True,
            )
            + "\\n"
        )''', '''        title = "**" + self.attrs.panelType.upper() + "**"
        body = doc_content_to_markdown(content=self.content, ignore_error=ignore_error)
        md = strip_double_empty_line(title + "\\n\\n" + body)
        return textwrap.indent(md, "> ", lambda _: True) + "\\n"
''')]),
    dict(id="K19-card-guard", props=["C24", "C22", "C09"], edits=[(BC, '''        if isinstance(self.attrs.url, str):
            return f"\\n[{self.attrs.url}]({self.attrs.url})\\n"
        else:
            raise NotImplementedError
''', '''        url = self.attrs.url
        if not isinstance(url, str):
            raise NotImplementedError
        return "\\n[%s](%s)\\n" % (url, url)
''')]),
    dict(id="K20-cell-base", props=["C19", "C20", "C21", "C12"], edits=[(TC, "class NodeTableCell(BaseNode):", '''class CellMixin:
    def _inline(self, md: str) -> str:
        out = []
        for line in md.split("\\n"):
            text = line.lstrip(" ")
            out.append("&nbsp;" * (len(line) - len(text)) + text)
        return "<br>".join(out)


@dataclasses.dataclass(frozen=True)
class NodeTableCell(CellMixin, BaseNode):'''), (TC, TC_OLD, "        return self._inline(md)\n")]),
]
