"""Larger behaviour-preserving edits (several files each), for tools/refactor.py."""
A = "/repo/atlas_doc_parser/"
ITEM = ["bullet", "ordered"]
TRY = '''                        except Exception as e:%s
                            if ignore_error:
                                pass
                            else:
                                raise e
'''


def cut(f, start, end=None):
    """the text of file f from start to (not including) end, or to the end of the file"""
    s = open(A + f).read()
    i = s.index(start)
    return s[i:s.index(end, i)] if end else s[i:]


def body(f):
    return cut(f, "    def to_markdown(")


def swap(f, new, start="    def to_markdown(", end=None):
    return (f, cut(f, start, end), new)


def addfn(f, text):
    """text appended after the last line of helper module f"""
    return (f, "ATLASSIAN_LANG_TO_MARKDOWN_LANG_MAPPING = {}", text + "\n\nATLASSIAN_LANG_TO_MARKDOWN_LANG_MAPPING = {}")


HLP = "markdown_helpers.py"
IMP_LIST = ("from ..mark_or_node import Base, BaseNode\n", "from ..mark_or_node import Base, BaseNode\nfrom ..markdown_helpers import %s\n")


def imp(f, names):
    s = open(A + f).read()
    old = IMP_LIST[0] if IMP_LIST[0] in s else "from ..mark_or_node import BaseNode\n" if "from ..mark_or_node import BaseNode\n" in s else "from ..mark_or_node import BaseMark\n" if "from ..mark_or_node import BaseMark\n" in s else "from ..mark_or_node import Base, BaseMark\n"
    return (f, old, old + "from ..markdown_helpers import %s\n" % names)


SIG_L = '''    def to_markdown(
        self,
        level: int = 0,
        ignore_error: bool = False,
    ) -> str:
'''
SIG = '''    def to_markdown(
        self,
        ignore_error: bool = False,
    ) -> str:
'''
MSIG = '''    def to_markdown(
        self,
        text: str,
    ) -> str:
'''

REFACTORINGS = [
    dict(id="H01-shared-list-items", props=["C15", "C16", "C11", "C12", "C07"], edits=[
        addfn(HLP, '''def list_item_lines(item, nested_type, marker: str, indent: str, level: int, ignore_error: bool) -> list[str]:
    """Lines of one list item: the first one carries the marker."""
    parts = []
    for child in item.content:
        try:
            if child.is_type_of(nested_type):
                part = child.to_markdown(level=level + 1, ignore_error=ignore_error)
            else:
                part = child.to_markdown(ignore_error=ignore_error).rstrip()
        except Exception:
            if not ignore_error:
                raise
            continue
        parts.append(part)
    first, *rest = "\\n".join(parts).split("\\n")
    return [f"{indent}{marker} {first}", *rest]
'''),
        imp("nodes/node_bullet_list.py", "list_item_lines"), imp("nodes/node_ordered_list.py", "list_item_lines"),
        swap("nodes/node_bullet_list.py", SIG_L + '''        indent = "    " * level
        lines = []
        for item in self.content:
            if not item.is_type_of(TypeEnum.listItem):
                continue
            lines += list_item_lines(item, TypeEnum.bulletList, "-", indent, level, ignore_error)
        return "\\n".join(lines)
'''),
        swap("nodes/node_ordered_list.py", SIG_L + '''        indent = "    " * level
        lines = []
        number = 1
        if level == 0 and self.attrs is not OPT:
            if isinstance(self.attrs.order, int):
                number = self.attrs.order
        for item in self.content:
            if not item.is_type_of(TypeEnum.listItem):
                continue
            lines += list_item_lines(item, TypeEnum.orderedList, f"{number}.", indent, level, ignore_error)
            number += 1
        return "\\n".join(lines)
'''),
    ]),
    dict(id="H02-render-or-none", props=["C10", "C14", "C17", "C19", "C21", "C11", "C12", "C13"], edits=[
        addfn(HLP, '''def render_or_none(node, ignore_error: bool, **kwargs) -> T.Optional[str]:
    """The Markdown of a node, or None when it failed and errors are ignored."""
    try:
        return node.to_markdown(ignore_error=ignore_error, **kwargs)
    except Exception:
        if ignore_error:
            return None
        raise
'''),
        (HLP, cut(HLP, '''    if content is OPT:
        return ""
    else:
        lst = list()
        for node in content:
            try:
                md = node''', "def doc_content_to_markdown"), '''    if content is OPT:
        return ""
    rendered = [render_or_none(node, ignore_error) for node in content]
    return concat.join([md for md in rendered if md is not None])


'''),
        imp("nodes/node_task_list.py", "render_or_none"),
        swap("nodes/node_task_list.py", SIG_L + '''        prefix = "    " * level + "- "
        lines = []
        for item in self.content:
            if item.is_type_of(TypeEnum.taskList):
                md = render_or_none(item, ignore_error, level=level + 1)
                if md is not None:
                    lines.append(md)
            elif item.is_type_of(TypeEnum.taskItem):
                children = [] if item.content is OPT else item.content
                parts = [render_or_none(node, ignore_error) for node in children]
                text = "".join(part for part in parts if part is not None)
                box = "x" if item.attrs.state == "DONE" else " "
                lines.append(prefix + "[" + box + "] " + text.rstrip())
        return "\\n".join(lines)
'''),
        imp("nodes/node_decision_list.py", "render_or_none"),
        swap("nodes/node_decision_list.py", SIG + '''        blocks = []
        for item in self.content:
            if item.is_type_of(TypeEnum.decisionItem):
                block = render_or_none(item, ignore_error)
                if block is not None:
                    blocks.append(block)
        return "\\n\\n".join(blocks)
'''),
        imp("nodes/node_table.py", "render_or_none"),
        swap("nodes/node_table.py", SIG + '''        lines = []
        for row in self.content:
            md = render_or_none(row, ignore_error)
            if md is None:
                continue
            lines.append(md)
            is_first = len(lines) == 1
            if is_first and row.content and row.content[0].is_type_of(TypeEnum.tableHeader):
                columns = ["---" for _ in row.content]
                lines.append("| " + " | ".join(columns) + " |")
        return "\\n".join(lines)
'''),
    ]),
    dict(id="H03-quote-helper", props=["C20", "C11", "C12"], edits=[
        addfn(HLP, '''def quote(md: str) -> str:
    """Prefix every line of md with ``> ``."""
    quoted = textwrap.indent(strip_double_empty_line(md), "> ", lambda _: True)
    return f"{quoted}\\n"
'''),
        (HLP, "import typing as T\n", "import textwrap\nimport typing as T\n"),
        imp("nodes/node_panel.py", "quote"), imp("nodes/node_blockquote.py", "quote"),
        swap("nodes/node_panel.py", SIG + '''        title = self.attrs.panelType.upper()
        text = doc_content_to_markdown(self.content, ignore_error=ignore_error)
        return quote(f"**{title}**\\n\\n{text}")
'''),
        swap("nodes/node_blockquote.py", SIG + '''        text = doc_content_to_markdown(self.content, ignore_error=ignore_error)
        return quote(text)
'''),
    ]),
    dict(id="H04-wrap-helper", props=["C08", "C09"], edits=[
        addfn(HLP, '''def wrap(text: str, left: str, right: T.Optional[str] = None) -> str:
    """Put markers around text unless it is blank."""
    if not text.strip():
        return text
    if right is None:
        right = left
    return left + text + right
'''),
        imp("marks/mark_strong.py", "wrap"), imp("marks/mark_em.py", "wrap"), imp("marks/mark_strike.py", "wrap"), imp("marks/mark_code.py", "wrap"),
        swap("marks/mark_strong.py", MSIG + '        return wrap(text, "**")\n'),
        swap("marks/mark_em.py", MSIG + '        return wrap(text, "*")\n'),
        swap("marks/mark_strike.py", MSIG + '        return wrap(text, "~~")\n'),
        swap("marks/mark_code.py", MSIG + '''        if text.find("\\n") >= 0:
            raise ValueError("A code mark cannot hold a newline.")
        return wrap(text, "`` ", " ``")
'''),
    ]),
    dict(id="H05-parse-entries", props="parsing", edits=[
        ("mark_or_node.py", cut("mark_or_node.py", "        dct = copy.deepcopy(dct)\n\n        # Deserialize attrs", "    def to_dict(self) -> T_DATA:\n        \"\"\"Serialize to dictionary, handling nested attrs, content"), '''        dct = copy.deepcopy(dct)
        cls._parse_attrs(dct)
        cls._parse_entries(dct, "content", parse_node)
        cls._parse_entries(dct, "marks", parse_mark)
        return super().from_dict(dct)

    @classmethod
    def _parse_attrs(cls, dct: T_DATA) -> None:
        """Replace the raw attributes by an attribute object."""
        field = cls.get_fields().get("attrs")
        if field is None or "attrs" not in dct:
            return
        if hasattr(field.type, "from_dict"):
            dct["attrs"] = field.type.from_dict(dct["attrs"])

    @classmethod
    def _parse_entries(cls, dct: T_DATA, key: str, parse: T.Callable) -> None:
        """Replace the raw entries of a list by elements."""
        if key not in dct or key not in cls.get_fields():
            return
        entries = dct[key]
        if not isinstance(entries, list):
            return
        parsed = []
        for entry in entries:
            try:
                parsed.append(parse(entry))
            except UnimplementedTypeError as e:
                if settings.WARN_UNIMPLEMENTED_TYPE:
                    logger.warning("%s", e)
        dct[key] = parsed

'''),
    ]),
    dict(id="H06-lru-cache", props=["C25", "C27", "C04", "C02"], edits=[
        ("mark_or_node.py", '''_CLASS_FIELD: dict[T.Any, T_FIELDS] = {}  # class fields cache
''', '''

@functools.lru_cache(maxsize=None)
def _fields_of(klass: type) -> T_FIELDS:
    """Fields of a dataclass by name (computed once per class)."""
    return {field.name: field for field in dataclasses.fields(klass)}
'''), ("mark_or_node.py", '''        try:
            return _CLASS_FIELD[cls]
        except KeyError:
            _CLASS_FIELD[cls] = {field.name: field for field in dataclasses.fields(cls)}
            return _CLASS_FIELD[cls]
''', '''        return _fields_of(cls)
'''), ("mark_or_node.py", "import copy\n", "import copy\nimport functools\n")]),
    dict(id="H07-registry-comprehension", props=["C01", "C02"], edits=[
        ("nodes/parse_node.py", cut("nodes/parse_node.py", "NODE_TYPE_TO_CLASS_MAPPING = {", "def parse_node"), '''_NODE_CLASSES = (
    NodeDoc, NodeText, NodeRule, NodeListItem, NodeBulletList, NodeOrderedList, NodeParagraph, NodeTaskItem,
    NodeTaskList, NodeDecisionItem, NodeDecisionList, NodeEmoji, NodeHardBreak, NodeDate, NodeMention, NodeStatus,
    NodeHeading, NodeCodeBlock, NodeInlineCard, NodeBlockCard, NodeMedia, NodeMediaGroup, NodeMediaSingle,
    NodeEmbedCard, NodeExtension, NodeCaption, NodeMediaInline, NodePanel, NodeBlockquote, NodeExpand,
    NodeNestedExpand, NodeTableCell, NodeTableHeader, NodeTableRow, NodeTable,
)
NODE_TYPE_TO_CLASS_MAPPING = {klass.type: klass for klass in _NODE_CLASSES}


'''),
    ]),
    dict(id="H08-shared-dispatch", props=["C01", "C02", "C03", "C07"], edits=[
        ("exc.py", "from func_args.api import ParamError\n", '''from func_args.api import ParamError


def lookup(mapping: dict, type_value: str, category: str):
    """The class registered for a type string."""
    if type_value in mapping:
        return mapping[type_value]
    raise UnimplementedTypeError(type_value, category)
'''),
        ("nodes/parse_node.py", '''    type_ = dct["type"]
    try:
        klass = NODE_TYPE_TO_CLASS_MAPPING[type_]
    except KeyError:
        raise UnimplementedTypeError(type_, "node")
    return klass.from_dict(dct)''', '''    return lookup(NODE_TYPE_TO_CLASS_MAPPING, dct["type"], "node").from_dict(dct)'''),
        ("marks/parse_mark.py", '''    type_ = dct["type"]
    try:
        klass = MARK_TYPE_TO_CLASS_MAPPING[type_]
    except KeyError:
        raise UnimplementedTypeError(type_, "mark")
    return klass.from_dict(dct)''', '''    return lookup(MARK_TYPE_TO_CLASS_MAPPING, dct["type"], "mark").from_dict(dct)'''),
        ("nodes/parse_node.py", "from ..exc import UnimplementedTypeError", "from ..exc import UnimplementedTypeError, lookup"),
        ("marks/parse_mark.py", "from ..exc import UnimplementedTypeError", "from ..exc import UnimplementedTypeError, lookup"),
    ]),
    dict(id="H09-cell-regex", props=["C18", "C11"], edits=[
        swap("nodes/node_table_cell.py", SIG + '''        md = content_to_markdown(content=self.content, ignore_error=ignore_error)
        md = md.replace("|", "\\\\|")
        md = re.sub(r"(?m)^ +", lambda m: "&nbsp;" * len(m.group()), md)
        return md.replace("\\n", "<br>")
'''),
        ("nodes/node_table_cell.py", "import dataclasses\n\nfrom func", "import dataclasses\nimport re\n\nfrom func"),
    ]),
    dict(id="H10-cell-mixin", props=["C18", "C11", "C12", "C07"], edits=[
        addfn(HLP, '''NBSP = "&nbsp;"


def cell_text(md: str) -> str:
    """One-line text of a table cell."""
    out = []
    for line in md.replace("|", r"\\|").split("\\n"):
        text = line.lstrip(" ")
        out.append(NBSP * (len(line) - len(text)) + text)
    return "<br>".join(out)
'''),
        ("nodes/node_table_cell.py", "import content_to_markdown\n", "import cell_text, content_to_markdown\n"),
        ("nodes/node_table_header.py", "import content_to_markdown\n", "import cell_text, content_to_markdown\n"),
        swap("nodes/node_table_cell.py", SIG + '''        return cell_text(content_to_markdown(self.content, ignore_error=ignore_error))
'''),
        swap("nodes/node_table_header.py", SIG + '''        return cell_text(content_to_markdown(self.content, ignore_error=ignore_error))
'''),
    ]),
    dict(id="H11-decision-phases", props=["C21", "C11"], edits=[
        swap("nodes/node_decision_item.py", SIG + '''        text = content_to_markdown(content=self.content, ignore_error=ignore_error)
        quoted: list[str] = []
        texts = 0
        for raw in text.rstrip().split("\\n"):
            line = raw.rstrip()
            if line:
                texts += 1
                quoted.append("> " + line)
            elif texts > 1 and quoted[-1] != ">":
                quoted.append(">")
        return "\\n".join(quoted)
'''),
    ]),
    dict(id="H12-media-methods", props=["C24", "C09", "C11", "C12"], edits=[
        swap("nodes/node_media.py", SIG + '''        attrs = self.attrs
        if attrs.is_link_type():
            return "[media]"
        if attrs.is_external_type() and isinstance(attrs.url, str):
            return self._image(attrs.url)
        if attrs.is_file_type():
            return self._image(f"media:{attrs.id}")
        raise TypeError("Invalid media node attributes")

    def _image(self, target: str) -> str:
        alt = self.attrs.alt
        if not isinstance(alt, str):
            alt = "media"
        return add_style_to_markdown("![" + alt + "](" + target + ")", self)
'''),
    ]),
    dict(id="H13-card-mixin", props=["C24", "C11", "C12", "C04", "C05", "C06"], edits=[
        addfn(HLP, '''class UrlCardMixin:
    """Rendering of the cards that show a URL."""

    def url_link(self) -> str:
        url = self.attrs.url
        if not isinstance(url, str):
            raise NotImplementedError(type(self).__name__)
        return f"[{url}]({url})"
'''),
        imp("nodes/node_inline_card.py", "UrlCardMixin"), imp("nodes/node_block_card.py", "UrlCardMixin"),
        ("nodes/node_inline_card.py", "class NodeInlineCard(BaseNode)", "class NodeInlineCard(UrlCardMixin, BaseNode)"),
        ("nodes/node_block_card.py", "class NodeBlockCard(BaseNode)", "class NodeBlockCard(UrlCardMixin, BaseNode)"),
        swap("nodes/node_inline_card.py", SIG + "        return self.url_link()\n"),
        swap("nodes/node_block_card.py", SIG + '        return "\\n{}\\n".format(self.url_link())\n'),
    ]),
    dict(id="H14-date-helper", props=["C23", "C11", "C12"], edits=[
        swap("nodes/node_date.py", '''    def to_markdown(
        self: "NodeDate",
        ignore_error: bool = False,
    ) -> str:
        return self._utc_datetime().date().isoformat()

    def _utc_datetime(self) -> datetime:
        milliseconds = int(self.attrs.timestamp)
        return datetime.fromtimestamp(milliseconds / 1000, timezone.utc)
'''),
    ]),
    dict(id="H15-date-isoformat", props=["C23"], edits=[
        swap("nodes/node_date.py", '''    def to_markdown(
        self: "NodeDate",
        ignore_error: bool = False,
    ) -> str:
        seconds = int(self.attrs.timestamp) / 1000
        moment = datetime.fromtimestamp(seconds, timezone.utc)
        return moment.date().isoformat()
'''),
    ]),
    dict(id="H16-table-phases", props=["C19", "C11", "C12"], edits=[
        swap("nodes/node_table.py", SIG + '''        lines: list[str] = []
        for row in self.content:
            try:
                md = row.to_markdown(ignore_error=ignore_error)
                header = self._separator(row) if not lines else None
            except Exception:
                if not ignore_error:
                    raise
                continue
            lines.append(md)
            if header is not None:
                lines.append(header)
        return "\\n".join(lines)

    @staticmethod
    def _separator(row) -> T.Optional[str]:
        cells = row.content
        if not cells or not cells[0].is_type_of(TypeEnum.tableHeader):
            return None
        return "| " + " | ".join("---" for _ in cells) + " |"
'''),
        swap("nodes/node_table_row.py", SIG + '''        cells = (cell.to_markdown(ignore_error=ignore_error) for cell in self.content)
        return f"| {' | '.join(cells)} |"
'''),
    ]),
    dict(id="H17-reraise", props="rendering", edits=[
        (HLP, '''                lst.append(md)
            except Exception as e:  # pragma: no cover
                if ignore_error:
                    pass
                else:
                    raise e
        return concat.join(lst)
''', '''            except Exception:  # pragma: no cover
                if not ignore_error:
                    raise
            else:
                lst.append(md)
        return concat.join(lst)
'''),
        (HLP, '''                    md = node.to_markdown(ignore_error=ignore_error)
                # print(f"{node = }")  # for debug only
                # print(f"{md = }")  # for debug only
                lst.append(md)
            except Exception as e:  # pragma: no cover
                if ignore_error:
                    pass
                else:
                    raise e
''', '''                    md = node.to_markdown(ignore_error=ignore_error)
            except Exception:  # pragma: no cover
                if not ignore_error:
                    raise
            else:
                lst.append(md)
'''),
    ]),
    dict(id="H18-type-match", props=["C26", "C14", "C15", "C19"], edits=[
        ("type_enum.py", '''    if not isinstance(expected_types, list):
        expected_types = [expected_types]
    expected_values = [t.value for t in expected_types]
    return type_value in expected_values''', '''    if isinstance(expected_types, list):
        return any(type_value == member.value for member in expected_types)
    return type_value == expected_types.value
'''),
    ]),
    dict(id="H19-to-dict-loop", props=["C06", "C07", "C27"], edits=[
        ("mark_or_node.py", cut("mark_or_node.py", '''        # Build dict directly without modifying the frozen instance''', "    def to_markdown(self, ignore_error"), '''        data = dataclasses.asdict(self)
        if data.get("attrs", OPT) is not OPT and hasattr(self.attrs, "to_dict"):
            data["attrs"] = self.attrs.to_dict()
        for key in ("content", "marks"):
            if data.get(key, OPT) is not OPT:
                data[key] = [element.to_dict() for element in getattr(self, key)]
        return remove_optional(**data)

'''),
    ]),
    dict(id="H20-padded-types", props=["C13", "C14", "C20", "C11", "C12"], edits=[
        (HLP, '''def doc_content_to_markdown(''', '''PADDED_TYPES = [TypeEnum.bulletList, TypeEnum.orderedList, TypeEnum.codeBlock]


def _block_to_markdown(node: "T_NODE", ignore_error: bool) -> str:
    padding = "\\n" if node.is_type_of(PADDED_TYPES) else ""
    return padding + node.to_markdown(ignore_error=ignore_error) + padding


def doc_content_to_markdown('''),
        (HLP, cut(HLP, "                # Add extra newlines around block elements", "                # print(f\"{node = }\")"), '''                md = _block_to_markdown(node, ignore_error)
'''),
    ]),
    dict(id="H21-attrs-property", props=["C22", "C04", "C05", "C06"], edits=[
        ("nodes/node_code_block.py", cut("nodes/node_code_block.py", "        lang = \"\"\n"), '''        lang = "" if self.attrs is OPT else self.attrs.fence_label
        return "\\n".join(["```" + lang, code, "```"])
'''),
        ("nodes/node_code_block.py", '''

@dataclasses.dataclass(frozen=True)
class NodeCodeBlock(BaseNode)''', '''
    @property
    def fence_label(self) -> str:
        """What follows the opening backticks."""
        language = self.language
        if not isinstance(language, str):
            return ""
        label = ATLASSIAN_LANG_TO_MARKDOWN_LANG_MAPPING.get(language, language)
        return "" if label == "none" else label


@dataclasses.dataclass(frozen=True)
class NodeCodeBlock(BaseNode)'''),
    ]),
    dict(id="H22-iter-children", props=["C10", "C18", "C22", "C11", "C12", "C14"], edits=[
        (HLP, '''def content_to_markdown(''', '''def _iter_markdown(content, ignore_error: bool, render) -> T.Iterator[str]:
    for node in content:
        try:
            md = render(node)
        except Exception:
            if not ignore_error:
                raise
        else:
            yield md


def content_to_markdown('''),
        (HLP, cut(HLP, '''    if content is OPT:
        return ""
    else:
        lst = list()
        for node in content:
            try:
                md = node''', "def doc_content_to_markdown"), '''    if content is OPT:
        return ""
    return concat.join(
        _iter_markdown(content, ignore_error, lambda node: node.to_markdown(ignore_error=ignore_error))
    )


'''),
    ]),
    dict(id="H23-count", props=["C16", "C11", "C12"], edits=[
        ("nodes/node_ordered_list.py", cut("nodes/node_ordered_list.py", "        # Start numbering from attrs.order"), '''        start = 1
        if not level and self.attrs is not OPT and isinstance(self.attrs.order, int):
            start = self.attrs.order
        items = [item for item in self.content if item.is_type_of(TypeEnum.listItem)]
        for number, item in enumerate(items, start):
            parts = []
            for node in item.content:
                nested = node.is_type_of(TypeEnum.orderedList)
                try:
                    if nested:
                        parts.append(node.to_markdown(level=level + 1, ignore_error=ignore_error))
                    else:
                        parts.append(node.to_markdown(ignore_error=ignore_error).rstrip())
                except Exception:
                    if not ignore_error:
                        raise
            lines.append(f"{indent}{number}. " + "\\n".join(parts))
        return "\\n".join(lines)
'''),
    ]),
    dict(id="H24-bullet-one-string", props=["C15", "C11", "C12"], edits=[
        ("nodes/node_bullet_list.py", cut("nodes/node_bullet_list.py", "                # Join the content lines"), '''                lines.append(indent + "- " + "\\n".join(content_lines))

        return "\\n".join(lines)
'''),
    ]),
    dict(id="H25-dataclass-alias", props=["C04", "C05", "C06", "C10", "C23"], edits=[
        ("nodes/node_status.py", '''        return f"`{self.attrs.text}`"''', '''        attrs = self.attrs
        return "`" + str(attrs.text) + "`"'''),
        swap("nodes/node_heading.py", SIG + '''        hashes = "".join("#" for _ in range(self.attrs.level))
        text = content_to_markdown(content=self.content, ignore_error=ignore_error)
        return f"\\n\\n{hashes} {text}\\n\\n"
'''),
    ]),
    dict(id="H26-style-loop", props=["C09", "C10", "C23", "C24"], edits=[
        (HLP, cut(HLP, "    try:\n        if isinstance(node.marks, list):", "ATLASSIAN_LANG"), '''    marks = getattr(node, "marks", None)
    if not isinstance(marks, list):
        return md
    for mark in marks:
        md = mark.to_markdown(md)
    return md


'''),
    ]),
    dict(id="H27-mention-extension", props=["C23", "C24"], edits=[
        swap("nodes/node_mention.py", SIG + '''        text = self.attrs.text
        return text if isinstance(text, str) else "@Unknown"
'''),
        swap("nodes/node_extension.py", SIG + '''        attrs = self.attrs
        has_text = isinstance(attrs.text, str) and attrs.text != ""
        label = attrs.extensionKey if has_text else "/".join([attrs.extensionType, attrs.extensionKey])
        md = f"[Extension: {label}]"
        if has_text:
            md += f" {attrs.text}"
        return md
'''),
    ]),
    dict(id="H28-split-module", props=["C13", "C14", "C20"], edits=[
        (HLP, cut(HLP, "    if n is not None:\n", "def content_to_markdown"), '''    remaining = n
    while "\\n\\n\\n" in text:
        if remaining is not None:
            if remaining <= 0:
                break
            remaining -= 1
        text = text.replace("\\n\\n\\n", "\\n\\n")
    return text


'''),
    ]),
    dict(id="H29-task-item-method", props=["C17", "C10", "C11", "C12"], edits=[
        ("nodes/node_task_list.py", cut("nodes/node_task_list.py", "        for item in self.content:"), '''        for item in self.content:
            if item.is_type_of(TypeEnum.taskItem):
                lines.append(f"{indent}- {self._checkbox(item)} {self._text(item, ignore_error)}")
            elif item.is_type_of(TypeEnum.taskList):
                try:
                    nested = item.to_markdown(level + 1, ignore_error)
                except Exception:
                    if ignore_error:
                        continue
                    raise
                lines.append(nested)
        return "\\n".join(lines)

    @staticmethod
    def _checkbox(item) -> str:
        return {True: "[x]", False: "[ ]"}[item.attrs.state == "DONE"]

    @staticmethod
    def _text(item, ignore_error: bool) -> str:
        text = ""
        if item.content is not OPT:
            for node in item.content:
                try:
                    text += node.to_markdown(ignore_error=ignore_error)
                except Exception:
                    if not ignore_error:
                        raise
        return text.rstrip()
'''),
    ]),
    dict(id="H30-exc-str", props=["C01", "C03"], edits=[
        ("exc.py", cut("exc.py", "        super().__init__(\n"), '''        super().__init__(type_value, category)

    def __str__(self) -> str:
        return (
            f"{self.category.capitalize()} type '{self.type_value}' is not yet implemented. "
            f"Please submit an issue at https://github.com/MacHu-GWU/atlas_doc_parser-project/issues "
            f"with this type name so it can be added in a future release."
        )
'''),
    ]),
]
REFACTORINGS += [
    dict(id="H31-lru-method", props=["C25", "C27"], edits=[
        ("mark_or_node.py", '''    @classmethod
    def get_fields(cls) -> T_FIELDS:''', '''    @classmethod
    @functools.lru_cache(maxsize=None)
    def get_fields(cls) -> T_FIELDS:'''), ("mark_or_node.py", '''        try:
            return _CLASS_FIELD[cls]
        except KeyError:
            _CLASS_FIELD[cls] = {field.name: field for field in dataclasses.fields(cls)}
            return _CLASS_FIELD[cls]
''', '''        return {field.name: field for field in dataclasses.fields(cls)}
'''), ("mark_or_node.py", "import copy\n", "import copy\nimport functools\n")]),
    dict(id="H32-decorator", props=["C08", "C09"], edits=[
        addfn(HLP, '''def keep_blank(render):
    """Leave blank text as it is."""

    @functools.wraps(render)
    def wrapper(self, text: str) -> str:
        return render(self, text) if text.strip() else text

    return wrapper


def surrounded(marker: str):
    """A rendering that puts a marker on both sides."""

    def to_markdown(self, text: str) -> str:
        return marker + text + marker

    return keep_blank(to_markdown)
'''),
        (HLP, "import typing as T\n", "import functools\nimport typing as T\n"),
        imp("marks/mark_strong.py", "keep_blank"), imp("marks/mark_em.py", "surrounded"),
        swap("marks/mark_strong.py", "    @keep_blank\n" + MSIG + '        return f"**{text}**"\n'),
        swap("marks/mark_em.py", '    to_markdown = surrounded("*")\n'),
    ]),
]
