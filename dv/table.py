"""Documented element classes: type string, fields, required/optional, kinds.

Committed and reviewed by hand; the checks never derive it from the package.
Status of a field: req, opt, or ("default", value).
"""
CLASSES = {'NodeDoc': {'kind': 'node',
             'module': 'atlas_doc_parser.nodes.node_doc',
             'type': 'doc',
             'fields': [('type', ('default', 'doc'), ('str',)),
                        ('version', ('default', 1), ('int',)),
                        ('content',
                         'req',
                         ('content',
                          ('blockCard',
                           'blockquote',
                           'bulletList',
                           'codeBlock',
                           'decisionList',
                           'embedCard',
                           'expand',
                           'extension',
                           'heading',
                           'mediaGroup',
                           'mediaSingle',
                           'orderedList',
                           'panel',
                           'paragraph',
                           'rule',
                           'table',
                           'taskList')))]},
 'NodeText': {'kind': 'node',
              'module': 'atlas_doc_parser.nodes.node_text',
              'type': 'text',
              'fields': [('type', ('default', 'text'), ('str',)),
                         ('text', 'req', ('str',)),
                         ('marks',
                          'opt',
                          ('marks',
                           ('annotation',
                            'backgroundColor',
                            'code',
                            'em',
                            'link',
                            'strike',
                            'strong',
                            'subsup',
                            'textColor',
                            'underline')))]},
 'NodeRule': {'kind': 'node',
              'module': 'atlas_doc_parser.nodes.node_rule',
              'type': 'rule',
              'fields': [('type', ('default', 'rule'), ('str',)), ('attrs', 'opt', ('attrs', 'NodeRuleAttrs'))]},
 'NodeRuleAttrs': {'kind': 'attrs',
                   'module': 'atlas_doc_parser.nodes.node_rule',
                   'type': None,
                   'fields': [('localId', 'opt', ('str',))]},
 'NodeListItem': {'kind': 'node',
                  'module': 'atlas_doc_parser.nodes.node_list_item',
                  'type': 'listItem',
                  'fields': [('type', ('default', 'listItem'), ('str',)),
                             ('attrs', 'opt', ('attrs', 'NodeListItemAttrs')),
                             ('content',
                              'req',
                              ('content',
                               ('bulletList',
                                'codeBlock',
                                'extension',
                                'mediaSingle',
                                'orderedList',
                                'paragraph',
                                'taskList')))]},
 'NodeListItemAttrs': {'kind': 'attrs',
                       'module': 'atlas_doc_parser.nodes.node_list_item',
                       'type': None,
                       'fields': [('localId', 'opt', ('str',))]},
 'NodeBulletList': {'kind': 'node',
                    'module': 'atlas_doc_parser.nodes.node_bullet_list',
                    'type': 'bulletList',
                    'fields': [('type', ('default', 'bulletList'), ('str',)), ('content', 'req', ('content', ('listItem',)))]},
 'NodeOrderedList': {'kind': 'node',
                     'module': 'atlas_doc_parser.nodes.node_ordered_list',
                     'type': 'orderedList',
                     'fields': [('type', ('default', 'orderedList'), ('str',)),
                                ('attrs', 'opt', ('attrs', 'NodeOrderedListAttrs')),
                                ('content', 'req', ('content', ('listItem',)))]},
 'NodeOrderedListAttrs': {'kind': 'attrs',
                          'module': 'atlas_doc_parser.nodes.node_ordered_list',
                          'type': None,
                          'fields': [('order', 'opt', ('int',)), ('localId', 'opt', ('str',))]},
 'NodeParagraph': {'kind': 'node',
                   'module': 'atlas_doc_parser.nodes.node_paragraph',
                   'type': 'paragraph',
                   'fields': [('type', ('default', 'paragraph'), ('str',)),
                              ('attrs', 'opt', ('attrs', 'NodeParagraphAttrs')),
                              ('content',
                               'opt',
                               ('content',
                                ('date', 'emoji', 'hardBreak', 'inlineCard', 'mediaInline', 'mention', 'status', 'text'))),
                              ('marks', 'opt', ('marks', ('alignment', 'indentation')))]},
 'NodeParagraphAttrs': {'kind': 'attrs',
                        'module': 'atlas_doc_parser.nodes.node_paragraph',
                        'type': None,
                        'fields': [('localId', 'opt', ('str',))]},
 'NodeTaskItem': {'kind': 'node',
                  'module': 'atlas_doc_parser.nodes.node_task_item',
                  'type': 'taskItem',
                  'fields': [('type', ('default', 'taskItem'), ('str',)),
                             ('attrs', 'req', ('attrs', 'NodeTaskItemAttrs')),
                             ('content',
                              'opt',
                              ('content',
                               ('date', 'emoji', 'hardBreak', 'inlineCard', 'mediaInline', 'mention', 'status', 'text')))]},
 'NodeTaskItemAttrs': {'kind': 'attrs',
                       'module': 'atlas_doc_parser.nodes.node_task_item',
                       'type': None,
                       'fields': [('localId', 'req', ('str',)), ('state', 'req', ('enum', ('TODO', 'DONE')))]},
 'NodeTaskList': {'kind': 'node',
                  'module': 'atlas_doc_parser.nodes.node_task_list',
                  'type': 'taskList',
                  'fields': [('type', ('default', 'taskList'), ('str',)),
                             ('attrs', 'req', ('attrs', 'NodeTaskListAttrs')),
                             ('content', 'req', ('content', ('taskItem', 'taskList')))]},
 'NodeTaskListAttrs': {'kind': 'attrs',
                       'module': 'atlas_doc_parser.nodes.node_task_list',
                       'type': None,
                       'fields': [('localId', 'req', ('str',))]},
 'NodeDecisionItem': {'kind': 'node',
                      'module': 'atlas_doc_parser.nodes.node_decision_item',
                      'type': 'decisionItem',
                      'fields': [('type', ('default', 'decisionItem'), ('str',)),
                                 ('attrs', 'req', ('attrs', 'NodeDecisionItemAttrs')),
                                 ('content',
                                  'opt',
                                  ('content',
                                   ('date', 'emoji', 'hardBreak', 'inlineCard', 'mediaInline', 'mention', 'status', 'text')))]},
 'NodeDecisionItemAttrs': {'kind': 'attrs',
                           'module': 'atlas_doc_parser.nodes.node_decision_item',
                           'type': None,
                           'fields': [('localId', 'req', ('str',)), ('state', 'req', ('str',))]},
 'NodeDecisionList': {'kind': 'node',
                      'module': 'atlas_doc_parser.nodes.node_decision_list',
                      'type': 'decisionList',
                      'fields': [('type', ('default', 'decisionList'), ('str',)),
                                 ('attrs', 'req', ('attrs', 'NodeDecisionListAttrs')),
                                 ('content', 'req', ('content', ('decisionItem',)))]},
 'NodeDecisionListAttrs': {'kind': 'attrs',
                           'module': 'atlas_doc_parser.nodes.node_decision_list',
                           'type': None,
                           'fields': [('localId', 'req', ('str',))]},
 'NodeEmoji': {'kind': 'node',
               'module': 'atlas_doc_parser.nodes.node_emoji',
               'type': 'emoji',
               'fields': [('type', ('default', 'emoji'), ('str',)), ('attrs', 'req', ('attrs', 'NodeEmojiAttrs'))]},
 'NodeEmojiAttrs': {'kind': 'attrs',
                    'module': 'atlas_doc_parser.nodes.node_emoji',
                    'type': None,
                    'fields': [('shortName', 'req', ('str',)),
                               ('id', 'opt', ('str',)),
                               ('text', 'opt', ('str',)),
                               ('localId', 'opt', ('str',))]},
 'NodeHardBreak': {'kind': 'node',
                   'module': 'atlas_doc_parser.nodes.node_hard_break',
                   'type': 'hardBreak',
                   'fields': [('type', ('default', 'hardBreak'), ('str',)), ('attrs', 'opt', ('attrs', 'NodeHardBreakAttrs'))]},
 'NodeHardBreakAttrs': {'kind': 'attrs',
                        'module': 'atlas_doc_parser.nodes.node_hard_break',
                        'type': None,
                        'fields': [('text', 'opt', ('str',)), ('localId', 'opt', ('str',))]},
 'NodeDate': {'kind': 'node',
              'module': 'atlas_doc_parser.nodes.node_date',
              'type': 'date',
              'fields': [('type', ('default', 'date'), ('str',)), ('attrs', 'req', ('attrs', 'NodeDateAttrs'))]},
 'NodeDateAttrs': {'kind': 'attrs',
                   'module': 'atlas_doc_parser.nodes.node_date',
                   'type': None,
                   'fields': [('timestamp', 'req', ('str',)), ('localId', 'opt', ('str',))]},
 'NodeMention': {'kind': 'node',
                 'module': 'atlas_doc_parser.nodes.node_mention',
                 'type': 'mention',
                 'fields': [('type', ('default', 'mention'), ('str',)), ('attrs', 'req', ('attrs', 'NodeMentionAttrs'))]},
 'NodeMentionAttrs': {'kind': 'attrs',
                      'module': 'atlas_doc_parser.nodes.node_mention',
                      'type': None,
                      'fields': [('id', 'req', ('str',)),
                                 ('localId', 'opt', ('str',)),
                                 ('text', 'opt', ('str',)),
                                 ('accessLevel', 'opt', ('str',)),
                                 ('userType', 'opt', ('enum', ('DEFAULT', 'SPECIAL', 'APP')))]},
 'NodeStatus': {'kind': 'node',
                'module': 'atlas_doc_parser.nodes.node_status',
                'type': 'status',
                'fields': [('type', ('default', 'status'), ('str',)), ('attrs', 'req', ('attrs', 'NodeStatusAttrs'))]},
 'NodeStatusAttrs': {'kind': 'attrs',
                     'module': 'atlas_doc_parser.nodes.node_status',
                     'type': None,
                     'fields': [('text', 'req', ('str',)),
                                ('color', 'req', ('enum', ('neutral', 'purple', 'blue', 'red', 'yellow', 'green'))),
                                ('localId', 'opt', ('str',)),
                                ('style', 'opt', ('str',))]},
 'NodeHeading': {'kind': 'node',
                 'module': 'atlas_doc_parser.nodes.node_heading',
                 'type': 'heading',
                 'fields': [('type', ('default', 'heading'), ('str',)),
                            ('attrs', 'req', ('attrs', 'NodeHeadingAttrs')),
                            ('content',
                             'opt',
                             ('content',
                              ('date', 'emoji', 'hardBreak', 'inlineCard', 'mediaInline', 'mention', 'status', 'text'))),
                            ('marks', 'opt', ('marks', ('alignment', 'indentation')))]},
 'NodeHeadingAttrs': {'kind': 'attrs',
                      'module': 'atlas_doc_parser.nodes.node_heading',
                      'type': None,
                      'fields': [('level', 'req', ('int',)), ('localId', 'opt', ('str',))]},
 'NodeCodeBlock': {'kind': 'node',
                   'module': 'atlas_doc_parser.nodes.node_code_block',
                   'type': 'codeBlock',
                   'fields': [('type', ('default', 'codeBlock'), ('str',)),
                              ('attrs', 'opt', ('attrs', 'NodeCodeBlockAttrs')),
                              ('content', 'opt', ('content', ('text',)))]},
 'NodeCodeBlockAttrs': {'kind': 'attrs',
                        'module': 'atlas_doc_parser.nodes.node_code_block',
                        'type': None,
                        'fields': [('language', 'opt', ('str',)), ('uniqueId', 'opt', ('str',)), ('localId', 'opt', ('str',))]},
 'NodeInlineCard': {'kind': 'node',
                    'module': 'atlas_doc_parser.nodes.node_inline_card',
                    'type': 'inlineCard',
                    'fields': [('type', ('default', 'inlineCard'), ('str',)),
                               ('attrs', 'req', ('attrs', 'NodeInlineCardAttrs'))]},
 'NodeInlineCardAttrs': {'kind': 'attrs',
                         'module': 'atlas_doc_parser.nodes.node_inline_card',
                         'type': None,
                         'fields': [('url', 'opt', ('str',)), ('data', 'opt', ('json',)), ('localId', 'opt', ('str',))]},
 'NodeBlockCard': {'kind': 'node',
                   'module': 'atlas_doc_parser.nodes.node_block_card',
                   'type': 'blockCard',
                   'fields': [('type', ('default', 'blockCard'), ('str',)), ('attrs', 'req', ('attrs', 'NodeBlockCardAttrs'))]},
 'NodeBlockCardAttrs': {'kind': 'attrs',
                        'module': 'atlas_doc_parser.nodes.node_block_card',
                        'type': None,
                        'fields': [('url', 'opt', ('str',)),
                                   ('localId', 'opt', ('str',)),
                                   ('datasource', 'opt', ('json',)),
                                   ('width', 'opt', ('num',)),
                                   ('layout', 'opt', ('str',)),
                                   ('data', 'opt', ('json',))]},
 'NodeMedia': {'kind': 'node',
               'module': 'atlas_doc_parser.nodes.node_media',
               'type': 'media',
               'fields': [('type', ('default', 'media'), ('str',)),
                          ('attrs', 'req', ('attrs', 'NodeMediaAttrs')),
                          ('marks', 'opt', ('marks', ('annotation', 'border', 'link')))]},
 'NodeMediaAttrs': {'kind': 'attrs',
                    'module': 'atlas_doc_parser.nodes.node_media',
                    'type': None,
                    'fields': [('type', 'req', ('enum', ('file', 'link', 'external'))),
                               ('id', 'opt', ('str',)),
                               ('collection', 'opt', ('str',)),
                               ('url', 'opt', ('str',)),
                               ('localId', 'opt', ('str',)),
                               ('alt', 'opt', ('str',)),
                               ('width', 'opt', ('int',)),
                               ('height', 'opt', ('int',)),
                               ('occurrenceKey', 'opt', ('str',))]},
 'NodeMediaGroup': {'kind': 'node',
                    'module': 'atlas_doc_parser.nodes.node_media_group',
                    'type': 'mediaGroup',
                    'fields': [('type', ('default', 'mediaGroup'), ('str',)), ('content', 'req', ('content', ('media',)))]},
 'NodeMediaSingle': {'kind': 'node',
                     'module': 'atlas_doc_parser.nodes.node_media_single',
                     'type': 'mediaSingle',
                     'fields': [('type', ('default', 'mediaSingle'), ('str',)),
                                ('attrs', 'opt', ('attrs', 'NodeMediaSingleAttrs')),
                                ('content', 'opt', ('content', ('media',))),
                                ('marks', 'opt', ('marks', ('link',)))]},
 'NodeMediaSingleAttrs': {'kind': 'attrs',
                          'module': 'atlas_doc_parser.nodes.node_media_single',
                          'type': None,
                          'fields': [('layout',
                                      'opt',
                                      ('enum',
                                       ('wide', 'full-width', 'center', 'wrap-right', 'wrap-left', 'align-end', 'align-start'))),
                                     ('width', 'opt', ('num',)),
                                     ('widthType', 'opt', ('enum', ('percentage', 'pixel'))),
                                     ('localId', 'opt', ('str',))]},
 'NodeEmbedCard': {'kind': 'node',
                   'module': 'atlas_doc_parser.nodes.node_embed_card',
                   'type': 'embedCard',
                   'fields': [('type', ('default', 'embedCard'), ('str',)), ('attrs', 'req', ('attrs', 'NodeEmbedCardAttrs'))]},
 'NodeEmbedCardAttrs': {'kind': 'attrs',
                        'module': 'atlas_doc_parser.nodes.node_embed_card',
                        'type': None,
                        'fields': [('url', 'req', ('str',)),
                                   ('layout',
                                    'req',
                                    ('enum',
                                     ('wide', 'full-width', 'center', 'wrap-right', 'wrap-left', 'align-end', 'align-start'))),
                                   ('width', 'opt', ('num',)),
                                   ('originalHeight', 'opt', ('num',)),
                                   ('originalWidth', 'opt', ('num',)),
                                   ('localId', 'opt', ('str',))]},
 'NodeExtension': {'kind': 'node',
                   'module': 'atlas_doc_parser.nodes.node_extension',
                   'type': 'extension',
                   'fields': [('type', ('default', 'extension'), ('str',)),
                              ('attrs', 'req', ('attrs', 'NodeExtensionAttrs')),
                              ('marks',
                               'opt',
                               ('marks',
                                ('alignment',
                                 'annotation',
                                 'backgroundColor',
                                 'border',
                                 'breakout',
                                 'code',
                                 'dataConsumer',
                                 'em',
                                 'fragment',
                                 'indentation',
                                 'link',
                                 'strike',
                                 'strong',
                                 'subsup',
                                 'textColor',
                                 'underline')))]},
 'NodeExtensionAttrs': {'kind': 'attrs',
                        'module': 'atlas_doc_parser.nodes.node_extension',
                        'type': None,
                        'fields': [('extensionKey', 'req', ('str',)),
                                   ('extensionType', 'req', ('str',)),
                                   ('parameters', 'opt', ('json',)),
                                   ('text', 'opt', ('str',)),
                                   ('layout', 'opt', ('enum', ('wide', 'full-width', 'default'))),
                                   ('localId', 'opt', ('str',))]},
 'NodeCaption': {'kind': 'node',
                 'module': 'atlas_doc_parser.nodes.node_caption',
                 'type': 'caption',
                 'fields': [('type', ('default', 'caption'), ('str',)),
                            ('attrs', 'opt', ('attrs', 'NodeCaptionAttrs')),
                            ('content',
                             'opt',
                             ('content', ('date', 'emoji', 'hardBreak', 'inlineCard', 'mention', 'status', 'text')))]},
 'NodeCaptionAttrs': {'kind': 'attrs',
                      'module': 'atlas_doc_parser.nodes.node_caption',
                      'type': None,
                      'fields': [('localId', 'opt', ('str',))]},
 'NodeMediaInline': {'kind': 'node',
                     'module': 'atlas_doc_parser.nodes.node_media_inline',
                     'type': 'mediaInline',
                     'fields': [('type', ('default', 'mediaInline'), ('str',)),
                                ('attrs', 'req', ('attrs', 'NodeMediaInlineAttrs')),
                                ('marks', 'opt', ('marks', ('annotation', 'border', 'link')))]},
 'NodeMediaInlineAttrs': {'kind': 'attrs',
                          'module': 'atlas_doc_parser.nodes.node_media_inline',
                          'type': None,
                          'fields': [('id', 'req', ('str',)),
                                     ('collection', 'req', ('str',)),
                                     ('type', 'opt', ('enum', ('link', 'file', 'image'))),
                                     ('localId', 'opt', ('str',)),
                                     ('alt', 'opt', ('str',)),
                                     ('occurrenceKey', 'opt', ('str',)),
                                     ('width', 'opt', ('int',)),
                                     ('height', 'opt', ('int',)),
                                     ('data', 'opt', ('json',))]},
 'NodePanel': {'kind': 'node',
               'module': 'atlas_doc_parser.nodes.node_panel',
               'type': 'panel',
               'fields': [('type', ('default', 'panel'), ('str',)),
                          ('attrs', 'req', ('attrs', 'NodePanelAttrs')),
                          ('content',
                           'req',
                           ('content',
                            ('blockCard',
                             'bulletList',
                             'codeBlock',
                             'decisionList',
                             'extension',
                             'heading',
                             'mediaGroup',
                             'mediaSingle',
                             'orderedList',
                             'paragraph',
                             'rule',
                             'taskList')))]},
 'NodePanelAttrs': {'kind': 'attrs',
                    'module': 'atlas_doc_parser.nodes.node_panel',
                    'type': None,
                    'fields': [('panelType', 'req', ('enum', ('info', 'note', 'tip', 'warning', 'error', 'success', 'custom'))),
                               ('panelIcon', 'opt', ('str',)),
                               ('panelIconId', 'opt', ('str',)),
                               ('panelIconText', 'opt', ('str',)),
                               ('panelColor', 'opt', ('str',)),
                               ('localId', 'opt', ('str',))]},
 'NodeBlockquote': {'kind': 'node',
                    'module': 'atlas_doc_parser.nodes.node_blockquote',
                    'type': 'blockquote',
                    'fields': [('type', ('default', 'blockquote'), ('str',)),
                               ('attrs', 'opt', ('attrs', 'NodeBlockquoteAttrs')),
                               ('content',
                                'req',
                                ('content',
                                 ('bulletList',
                                  'codeBlock',
                                  'extension',
                                  'mediaGroup',
                                  'mediaSingle',
                                  'orderedList',
                                  'paragraph')))]},
 'NodeBlockquoteAttrs': {'kind': 'attrs',
                         'module': 'atlas_doc_parser.nodes.node_blockquote',
                         'type': None,
                         'fields': [('localId', 'opt', ('str',))]},
 'NodeExpand': {'kind': 'node',
                'module': 'atlas_doc_parser.nodes.node_expand',
                'type': 'expand',
                'fields': [('type', ('default', 'expand'), ('str',)),
                           ('attrs', 'opt', ('attrs', 'NodeExpandAttrs')),
                           ('content',
                            'req',
                            ('content',
                             ('blockCard',
                              'blockquote',
                              'bulletList',
                              'codeBlock',
                              'decisionList',
                              'embedCard',
                              'extension',
                              'heading',
                              'mediaGroup',
                              'mediaSingle',
                              'nestedExpand',
                              'orderedList',
                              'panel',
                              'paragraph',
                              'rule',
                              'table',
                              'taskList')))]},
 'NodeExpandAttrs': {'kind': 'attrs',
                     'module': 'atlas_doc_parser.nodes.node_expand',
                     'type': None,
                     'fields': [('title', 'opt', ('str',)), ('localId', 'opt', ('str',))]},
 'NodeNestedExpand': {'kind': 'node',
                      'module': 'atlas_doc_parser.nodes.node_nested_expand',
                      'type': 'nestedExpand',
                      'fields': [('type', ('default', 'nestedExpand'), ('str',)),
                                 ('attrs', 'req', ('attrs', 'NodeNestedExpandAttrs')),
                                 ('content',
                                  'req',
                                  ('content',
                                   ('blockquote',
                                    'bulletList',
                                    'codeBlock',
                                    'decisionList',
                                    'extension',
                                    'heading',
                                    'mediaGroup',
                                    'mediaSingle',
                                    'orderedList',
                                    'panel',
                                    'paragraph',
                                    'rule',
                                    'taskList')))]},
 'NodeNestedExpandAttrs': {'kind': 'attrs',
                           'module': 'atlas_doc_parser.nodes.node_nested_expand',
                           'type': None,
                           'fields': [('title', 'opt', ('str',)), ('localId', 'opt', ('str',))]},
 'NodeTableCell': {'kind': 'node',
                   'module': 'atlas_doc_parser.nodes.node_table_cell',
                   'type': 'tableCell',
                   'fields': [('type', ('default', 'tableCell'), ('str',)),
                              ('attrs', 'opt', ('attrs', 'NodeTableCellAttrs')),
                              ('content',
                               'req',
                               ('content',
                                ('blockCard',
                                 'blockquote',
                                 'bulletList',
                                 'codeBlock',
                                 'decisionList',
                                 'embedCard',
                                 'extension',
                                 'heading',
                                 'mediaGroup',
                                 'mediaSingle',
                                 'nestedExpand',
                                 'orderedList',
                                 'panel',
                                 'paragraph',
                                 'rule',
                                 'taskList')))]},
 'NodeTableCellAttrs': {'kind': 'attrs',
                        'module': 'atlas_doc_parser.nodes.node_table_cell',
                        'type': None,
                        'fields': [('colspan', 'opt', ('int',)),
                                   ('rowspan', 'opt', ('int',)),
                                   ('colwidth', 'opt', ('json',)),
                                   ('background', 'opt', ('str',)),
                                   ('localId', 'opt', ('str',))]},
 'NodeTableHeader': {'kind': 'node',
                     'module': 'atlas_doc_parser.nodes.node_table_header',
                     'type': 'tableHeader',
                     'fields': [('type', ('default', 'tableHeader'), ('str',)),
                                ('attrs', 'opt', ('attrs', 'NodeTableHeaderAttrs')),
                                ('content',
                                 'req',
                                 ('content',
                                  ('blockCard',
                                   'blockquote',
                                   'bulletList',
                                   'codeBlock',
                                   'decisionList',
                                   'embedCard',
                                   'extension',
                                   'heading',
                                   'mediaGroup',
                                   'mediaSingle',
                                   'nestedExpand',
                                   'orderedList',
                                   'panel',
                                   'paragraph',
                                   'rule',
                                   'taskList')))]},
 'NodeTableHeaderAttrs': {'kind': 'attrs',
                          'module': 'atlas_doc_parser.nodes.node_table_header',
                          'type': None,
                          'fields': [('colspan', 'opt', ('int',)),
                                     ('rowspan', 'opt', ('int',)),
                                     ('colwidth', 'opt', ('json',)),
                                     ('background', 'opt', ('str',)),
                                     ('localId', 'opt', ('str',))]},
 'NodeTableRow': {'kind': 'node',
                  'module': 'atlas_doc_parser.nodes.node_table_row',
                  'type': 'tableRow',
                  'fields': [('type', ('default', 'tableRow'), ('str',)),
                             ('attrs', 'opt', ('attrs', 'NodeTableRowAttrs')),
                             ('content', 'req', ('content', ('tableCell', 'tableHeader')))]},
 'NodeTableRowAttrs': {'kind': 'attrs',
                       'module': 'atlas_doc_parser.nodes.node_table_row',
                       'type': None,
                       'fields': [('localId', 'opt', ('str',))]},
 'NodeTable': {'kind': 'node',
               'module': 'atlas_doc_parser.nodes.node_table',
               'type': 'table',
               'fields': [('type', ('default', 'table'), ('str',)),
                          ('attrs', 'opt', ('attrs', 'NodeTableAttrs')),
                          ('content', 'req', ('content', ('tableRow',))),
                          ('marks', 'opt', ('marks', ('fragment',)))]},
 'NodeTableAttrs': {'kind': 'attrs',
                    'module': 'atlas_doc_parser.nodes.node_table',
                    'type': None,
                    'fields': [('displayMode', 'opt', ('enum', ('default', 'fixed'))),
                               ('isNumberColumnEnabled', 'opt', ('bool',)),
                               ('layout',
                                'opt',
                                ('enum', ('wide', 'full-width', 'center', 'align-end', 'align-start', 'default'))),
                               ('localId', 'opt', ('str',)),
                               ('width', 'opt', ('num',))]},
 'MarkBackgroundColor': {'kind': 'mark',
                         'module': 'atlas_doc_parser.marks.mark_background_color',
                         'type': 'backgroundColor',
                         'fields': [('type', ('default', 'backgroundColor'), ('str',)),
                                    ('attrs', 'req', ('attrs', 'MarkBackgroundColorAttrs'))]},
 'MarkBackgroundColorAttrs': {'kind': 'attrs',
                              'module': 'atlas_doc_parser.marks.mark_background_color',
                              'type': None,
                              'fields': [('color', 'req', ('str',))]},
 'MarkCode': {'kind': 'mark',
              'module': 'atlas_doc_parser.marks.mark_code',
              'type': 'code',
              'fields': [('type', ('default', 'code'), ('str',))]},
 'MarkEm': {'kind': 'mark',
            'module': 'atlas_doc_parser.marks.mark_em',
            'type': 'em',
            'fields': [('type', ('default', 'em'), ('str',))]},
 'MarkLink': {'kind': 'mark',
              'module': 'atlas_doc_parser.marks.mark_link',
              'type': 'link',
              'fields': [('type', ('default', 'link'), ('str',)), ('attrs', 'req', ('attrs', 'MarkLinkAttrs'))]},
 'MarkLinkAttrs': {'kind': 'attrs',
                   'module': 'atlas_doc_parser.marks.mark_link',
                   'type': None,
                   'fields': [('href', 'req', ('str',)),
                              ('title', 'opt', ('str',)),
                              ('id', 'opt', ('str',)),
                              ('collection', 'opt', ('str',)),
                              ('occurrenceKey', 'opt', ('str',))]},
 'MarkStrike': {'kind': 'mark',
                'module': 'atlas_doc_parser.marks.mark_strike',
                'type': 'strike',
                'fields': [('type', ('default', 'strike'), ('str',))]},
 'MarkStrong': {'kind': 'mark',
                'module': 'atlas_doc_parser.marks.mark_strong',
                'type': 'strong',
                'fields': [('type', ('default', 'strong'), ('str',))]},
 'MarkSubsup': {'kind': 'mark',
                'module': 'atlas_doc_parser.marks.mark_subsup',
                'type': 'subsup',
                'fields': [('type', ('default', 'subsup'), ('str',)), ('attrs', 'req', ('attrs', 'MarkSubsupAttrs'))]},
 'MarkSubsupAttrs': {'kind': 'attrs',
                     'module': 'atlas_doc_parser.marks.mark_subsup',
                     'type': None,
                     'fields': [('type', 'req', ('enum', ('sub', 'sup')))]},
 'MarkTextColor': {'kind': 'mark',
                   'module': 'atlas_doc_parser.marks.mark_text_color',
                   'type': 'textColor',
                   'fields': [('type', ('default', 'textColor'), ('str',)), ('attrs', 'req', ('attrs', 'MarkTextColorAttrs'))]},
 'MarkTextColorAttrs': {'kind': 'attrs',
                        'module': 'atlas_doc_parser.marks.mark_text_color',
                        'type': None,
                        'fields': [('color', 'req', ('str',))]},
 'MarkUnderline': {'kind': 'mark',
                   'module': 'atlas_doc_parser.marks.mark_underline',
                   'type': 'underline',
                   'fields': [('type', ('default', 'underline'), ('str',))]},
 'MarkAnnotation': {'kind': 'mark',
                    'module': 'atlas_doc_parser.marks.mark_annotation',
                    'type': 'annotation',
                    'fields': [('type', ('default', 'annotation'), ('str',)),
                               ('attrs', 'req', ('attrs', 'MarkAnnotationAttrs'))]},
 'MarkAnnotationAttrs': {'kind': 'attrs',
                         'module': 'atlas_doc_parser.marks.mark_annotation',
                         'type': None,
                         'fields': [('id', 'req', ('str',)), ('annotationType', 'req', ('str',))]},
 'MarkIndentation': {'kind': 'mark',
                     'module': 'atlas_doc_parser.marks.mark_indentation',
                     'type': 'indentation',
                     'fields': [('type', ('default', 'indentation'), ('str',)),
                                ('attrs', 'req', ('attrs', 'MarkIndentationAttrs'))]},
 'MarkIndentationAttrs': {'kind': 'attrs',
                          'module': 'atlas_doc_parser.marks.mark_indentation',
                          'type': None,
                          'fields': [('level', 'req', ('int',))]},
 'MarkBorder': {'kind': 'mark',
                'module': 'atlas_doc_parser.marks.mark_border',
                'type': 'border',
                'fields': [('type', ('default', 'border'), ('str',)), ('attrs', 'req', ('attrs', 'MarkBorderAttrs'))]},
 'MarkBorderAttrs': {'kind': 'attrs',
                     'module': 'atlas_doc_parser.marks.mark_border',
                     'type': None,
                     'fields': [('size', 'req', ('int',)), ('color', 'req', ('str',))]},
 'MarkAlignment': {'kind': 'mark',
                   'module': 'atlas_doc_parser.marks.mark_alignment',
                   'type': 'alignment',
                   'fields': [('type', ('default', 'alignment'), ('str',)), ('attrs', 'req', ('attrs', 'MarkAlignmentAttrs'))]},
 'MarkAlignmentAttrs': {'kind': 'attrs',
                        'module': 'atlas_doc_parser.marks.mark_alignment',
                        'type': None,
                        'fields': [('align', 'req', ('enum', ('center', 'end')))]},
 'MarkBreakout': {'kind': 'mark',
                  'module': 'atlas_doc_parser.marks.mark_breakout',
                  'type': 'breakout',
                  'fields': [('type', ('default', 'breakout'), ('str',)), ('attrs', 'req', ('attrs', 'MarkBreakoutAttrs'))]},
 'MarkBreakoutAttrs': {'kind': 'attrs',
                       'module': 'atlas_doc_parser.marks.mark_breakout',
                       'type': None,
                       'fields': [('mode', 'req', ('enum', ('wide', 'full-width'))), ('width', 'opt', ('int',))]},
 'MarkDataConsumer': {'kind': 'mark',
                      'module': 'atlas_doc_parser.marks.mark_data_consumer',
                      'type': 'dataConsumer',
                      'fields': [('type', ('default', 'dataConsumer'), ('str',)),
                                 ('attrs', 'req', ('attrs', 'MarkDataConsumerAttrs'))]},
 'MarkDataConsumerAttrs': {'kind': 'attrs',
                           'module': 'atlas_doc_parser.marks.mark_data_consumer',
                           'type': None,
                           'fields': [('sources', 'req', ('json',))]},
 'MarkFragment': {'kind': 'mark',
                  'module': 'atlas_doc_parser.marks.mark_fragment',
                  'type': 'fragment',
                  'fields': [('type', ('default', 'fragment'), ('str',)), ('attrs', 'req', ('attrs', 'MarkFragmentAttrs'))]},
 'MarkFragmentAttrs': {'kind': 'attrs',
                       'module': 'atlas_doc_parser.marks.mark_fragment',
                       'type': None,
                       'fields': [('localId', 'req', ('str',)), ('name', 'opt', ('str',))]},
 'NodeBlockCardAttrsDatasourceView': {'kind': 'attrs',
                                      'module': 'atlas_doc_parser.nodes.node_block_card',
                                      'type': None,
                                      'fields': [('type', 'opt', ('str',)), ('properties', 'opt', ('json',))]},
 'NodeBlockCardAttrsDatasource': {'kind': 'attrs',
                                  'module': 'atlas_doc_parser.nodes.node_block_card',
                                  'type': None,
                                  'fields': [('id', 'opt', ('str',)),
                                             ('parameters', 'opt', ('json',)),
                                             ('views', 'opt', ('json',))]}}
