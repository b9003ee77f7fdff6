"""What each structure of the library owns (confirmed by reading the declarations and constructors).

scalar  field released with the structure
cbarray (field, length field, callback releasing an element, when there is one)
array   (field, length field, owned fields of an element; None = the element itself)
list    head of a list whose elements go with the structure
tag     (tag field, union field, {enumerator: kind})
All fields of an 'allornone' structure are released together (another activation may already be at it).
"""


class Own:
    def __init__(self, scalar=(), array=(), lists=(), tag=None, allornone=False, cond=None, cbarray=()):
        self.scalar = scalar
        self.array = array
        self.lists = lists
        self.tag = tag
        self.allornone = allornone
        self.cond = cond or {}
        self.cbarray = cbarray


OWN = {
    'enode_table': Own(['pair'], [('pair', 'len', ('pair.enode',))]),
    'ec_comp': Own(['attrs'], lists=['groups']),
    'ec_comp_group': Own(['attrs', 'pstate'], lists=['items']),
    'ec_comp_item': Own(['start', 'full', 'completion', 'display', 'attrs']),
    'ec_editline': Own(['el', 'history', 'hist_file', 'prompt']),
    'ec_htable': Own(['table'], lists=['list']),
    'ec_htable_elt': Own(['key', 'val'], cond={'val': 'free'}),
    'ec_node': Own(['id', 'attrs', 'config'], allornone=True),
    'ec_pnode': Own(['strvec', 'attrs'], lists=['children']),
    'ec_strvec_elt': Own(['str', 'attrs']),
    'ec_strvec': Own(['vec'], [('vec', 'len', (0,))]),
    'ec_vec': Own(['vec'], cbarray=[('vec', 'len', 'free')]),
    'ec_config': Own(tag=('type', '', {'EC_CONFIG_TYPE_STRING': 'ptr', 'EC_CONFIG_TYPE_NODE': 'ptr',
                                       'EC_CONFIG_TYPE_DICT': 'ptr', 'EC_CONFIG_TYPE_LIST': 'list'})),
    'cond_result': Own(tag=('type', '', {'STR': 'ptr', 'NODESET': 'ptr'})),
    'ec_node_any': Own(['attr_name']),
    'ec_node_bypass': Own(['child']),
    'ec_node_cmd': Own(['cmd_str', 'cmd', 'table'], [('table', 'len', (0,))]),
    'ec_node_cond': Own(['cond_str', 'parsed_cond', 'child']),
    'ec_node_expr': Own(['child', 'val_node', 'bin_ops', 'pre_ops', 'post_ops', 'open_ops', 'close_ops'],
                        [('bin_ops', 'bin_ops_len', (0,)), ('pre_ops', 'pre_ops_len', (0,)),
                         ('post_ops', 'post_ops_len', (0,)), ('open_ops', 'paren_len', (0,)),
                         ('close_ops', 'paren_len', (0,))]),
    'ec_node_many': Own(['child']),
    'ec_node_once': Own(['child']),
    'ec_node_option': Own(['child']),
    'ec_node_or': Own(['table'], [('table', 'len', (0,))]),
    'ec_node_re': Own(['re_str', 're'], cond={'re': 're_str'}),
    'ec_node_re_lex': Own(['child', 'table'], [('table', 'len', ('regexp_pattern.pattern',
                                                                  'regexp_pattern.attr_name',
                                                                  'regexp_pattern.r'))]),
    'ec_node_seq': Own(['table'], [('table', 'len', (0,))]),
    'ec_node_sh_lex': Own(['child']),
    'ec_node_str': Own(['string']),
    'ec_node_subset': Own(['table'], [('table', 'len', (0,))]),
}
