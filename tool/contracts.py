"""Documented ownership / failure contracts of libecoli's public interface and of the libc,
libyaml and libedit functions it calls.  Source of every entry: the header comment (or man page).

Return kinds
  own:<family>  new object of that family or NULL on failure
  ptr           borrowed pointer (may be NULL);  ptr!  borrowed, never NULL
  int           negative = failure, otherwise success
  int0          0 = success, -1 = failure
  len           non negative number, cannot fail
  bool          0/1
  parse         <0 error, EC_PARSE_NOMATCH, or number of consumed strings
  any           unconstrained
  void
Argument effects (default: pointer-to-const = ro, other pointers = rw)
  ro / rw       borrowed, callee does not / may modify what it points to
  free          released (NULL allowed)
  consume       handed over, on success and on failure
  consume_ok    handed over on success only
  hold          callee keeps the pointer, caller keeps ownership
  out:<family>  *arg receives a new object on success
"""
import re


class C:
    __slots__ = ('ret', 'args', 'pure', 'noerrno', 'special', 'nofail')

    def __init__(self, ret, args=None, pure=False, noerrno=False, special=None):
        self.ret = ret
        self.args = args or {}
        self.pure = pure            # result depends only on the arguments and unmodified memory
        self.noerrno = noerrno      # failure does not set errno
        self.special = special


T = {}


def d(names, ret, pure=False, noerrno=False, special=None, **args):
    for n in names.split():
        T[n] = C(ret, {int(k[1:]): v for k, v in args.items()}, pure, noerrno, special)


# ---------------------------------------------------------------- allocator
d('__ec_malloc', 'own:mem')
d('__ec_calloc', 'own:mem', special='zero')
d('__ec_strdup __ec_strndup', 'own:mem')
d('__ec_realloc', 'own:mem', special='realloc')
d('__ec_free', 'void', a0='free')
d('ec_malloc_func', 'own:mem')
d('ec_free_func', 'void', a0='free')
d('malloc', 'own:libc')
d('calloc', 'own:libc', special='zero')
d('strdup strndup', 'own:libc')
d('realloc', 'own:libc', special='realloc')
d('free', 'void', a0='free')
d('asprintf vasprintf', 'int', a0='out:libc')
d('ec_asprintf', 'int', a0='out:mem')
d('ec_vasprintf', 'int', a0='out:mem')
d('ec_malloc_register', 'int0')

# ---------------------------------------------------------------- vec / strvec
d('ec_vec ec_vec_dup ec_vec_ndup', 'own:vec')
d('ec_vec_free', 'void', a0='free')
d('ec_vec_add_by_ref ec_vec_add_ptr ec_vec_add_u8 ec_vec_add_u16 ec_vec_add_u32 ec_vec_add_u64', 'int0',
  a1='hold')
d('ec_vec_get', 'int0')
d('ec_vec_len', 'len', pure=True)
d('ec_strvec ec_strvec_from_array ec_strvec_dup ec_strvec_ndup', 'own:strvec')
d('ec_strvec_sh_lex_str', 'own:strvec')
d('ec_strvec_free', 'void', a0='free')
d('ec_strvec_set ec_strvec_add ec_strvec_del_last', 'int0')
d('ec_strvec_set_attrs', 'int0', a2='consume')
d('ec_strvec_len', 'len', pure=True)
d('ec_strvec_val ec_strvec_get_attrs', 'ptr', pure=True)
d('ec_strvec_cmp', 'any')
d('ec_strvec_sort ec_strvec_dump', 'void')

# ---------------------------------------------------------------- htable / dict
for p in ('htable', 'dict'):
    d('ec_%s ec_%s_dup' % (p, p), 'own:' + p)
    d('ec_%s_free' % p, 'void', a0='free')
    d('ec_%s_get' % p, 'ptr')
    d('ec_%s_has_key' % p, 'bool')
    d('ec_%s_del' % p, 'int0')
    d('ec_%s_len' % p, 'len', pure=True)
    d('ec_%s_dump' % p, 'void')
    d('ec_%s_iter ec_%s_iter_next ec_%s_iter_get_key ec_%s_iter_get_val' % (p, p, p, p), 'ptr')
d('ec_htable_iter_get_key_len', 'len')
d('ec_htable_set', 'int0', special='set:3:4')
d('ec_dict_set', 'int0', special='set:2:3')
d('ec_htable_force_seed', 'void')

# ---------------------------------------------------------------- config
d('ec_config_bool ec_config_i64 ec_config_u64 ec_config_string ec_config_dict ec_config_list ec_config_dup',
  'own:config')
d('ec_config_node', 'own:config', a0='consume')
d('ec_config_free', 'void', a0='free')
d('ec_config_list_add', 'int0', a1='consume')
d('ec_config_list_del', 'int0', a1='consume_ok')
d('ec_config_dict_set', 'int0', a2='consume')
d('ec_config_dict_del', 'int0')
d('ec_config_count', 'int')
d('ec_config_validate ec_config_schema_validate', 'int0')
d('ec_config_cmp', 'any')
d('ec_config_get_type', 'any', pure=True)
d('ec_config_dict_get', 'ptr', a0='ro')
d('ec_config_list_first ec_config_list_next', 'ptr', a0='ro', a1='ro')
d('ec_config_dump ec_config_schema_dump', 'void')
d('ec_config_schema_lookup ec_config_schema_sub', 'ptr')
d('ec_config_schema_type', 'any')
d('ec_config_key_is_reserved', 'bool')

# ---------------------------------------------------------------- node
d('ec_node ec_node_from_type', 'own:node')
d('ec_node_clone', 'own:node', a0='ro', special='clone')
d('ec_node_free', 'void', a0='free')
d('ec_node_set_config', 'int0', a1='consume')
d('ec_node_get_config', 'ptr', a0='ro')
d('ec_node_get_children_count', 'len')
d('ec_node_get_child', 'int0')
d('ec_node_type', 'ptr!', pure=True)
d('ec_node_attrs', 'ptr!', pure=True)
d('ec_node_id', 'ptr', pure=True)
d('ec_node_priv', 'ptr!', pure=True)
d('ec_node_get_type_name ec_node_type_name', 'ptr!', pure=True)
d('ec_node_type_schema', 'ptr')
d('ec_node_desc', 'own:mem')
d('ec_node_dump ec_node_type_dump', 'void')
d('ec_node_find', 'ptr', a0='ro')
d('ec_node_check_type', 'int0')
d('ec_node_type_register', 'int0', a0='hold')
d('ec_node_type_lookup', 'ptr')
d('ec_node_any ec_node_empty ec_node_none ec_node_space ec_node_expr ec_node_file ec_node_int ec_node_uint '
  'ec_node_or ec_node_seq ec_node_subset ec_node_re ec_node_str ec_node_dynamic __ec_node_cmd', 'own:node')
d('__ec_node_or __ec_node_seq __ec_node_subset', 'own:node', special='vaconsume')
d('ec_node_bypass ec_node_once ec_node_option ec_node_sh_lex ec_node_re_lex', 'own:node', a1='consume')
d('ec_node_many', 'own:node', a1='consume')
d('ec_node_cond', 'own:node', a2='consume')
d('ec_node_bypass_set_child ec_node_once_set_child ec_node_option_set_child ec_node_many_set_params '
  'ec_node_or_add ec_node_seq_add ec_node_subset_add ec_node_expr_set_val_node ec_node_expr_add_bin_op '
  'ec_node_expr_add_pre_op ec_node_expr_add_post_op', 'int0', a1='consume')
d('ec_node_expr_add_parenthesis', 'int0', a1='consume', a2='consume')
d('ec_node_file_set_str ec_node_re_set_regexp ec_node_str_set_str ec_node_re_lex_add', 'int0')
d('ec_node_int_getval ec_node_uint_getval', 'int0')
d('ec_node_expr_eval', 'int0', a0='out:user', a2='ro')
d('ec_node_config_node_list_to_table', 'own:table')
d('ec_node_config_node_list_from_vargs', 'own:config', special='vaconsume')
d('ec_node_type_check', 'int0')

# ---------------------------------------------------------------- parse
d('ec_pnode ec_pnode_dup ec_parse ec_parse_strvec', 'own:pnode')
d('ec_pnode_free', 'void', a0='free')
d('ec_pnode_free_children', 'void', special='pfreechildren')
d('ec_pnode_del_last_child', 'void', special='pdellast')
d('ec_pnode_link_child', 'void', a1='consume', special='plink')
d('ec_pnode_unlink_child', 'void', special='punlink')
d('ec_parse_child', 'parse', special='pchild')
d('ec_pnode_get_first_child ec_pnode_get_last_child ec_pnode_next', 'ptr', a0='ro', special='plinked')
d('ec_pnode_get_strvec ec_pnode_get_root ec_pnode_get_parent '
  ' ec_pnode_get_node ec_pnode_find ec_pnode_find_next __ec_pnode_iter_next', 'ptr', a0='ro', a1='ro')
d('ec_pnode_get_attrs', 'ptr!', a0='ro')
d('ec_pnode_dump', 'void')
d('ec_pnode_len', 'len')
d('ec_pnode_matches', 'any')

# ---------------------------------------------------------------- complete
d('ec_comp ec_complete ec_complete_strvec', 'own:comp')
d('ec_comp_free', 'void', a0='free')
d('ec_complete_child ec_complete_unknown', 'int0')
d('ec_comp_merge', 'int0', a1='consume')
d('ec_comp_add_item', 'ptr', special='fallible')
d('ec_comp_item_set_str ec_comp_item_set_display ec_comp_item_set_completion', 'int0')
d('ec_comp_get_cur_pstate ec_comp_get_cur_group ec_comp_get_attrs', 'ptr', pure=True)
d('ec_comp_item_get_str ec_comp_item_get_display ec_comp_item_get_completion ec_comp_item_get_grp '
  'ec_comp_item_get_node ec_comp_group_get_node ec_comp_group_get_pstate ec_comp_group_get_attrs', 'ptr', pure=True)
d('ec_comp_item_get_type', 'any', pure=True)
d('ec_comp_count', 'len', pure=True)
d('ec_comp_iter_first ec_comp_iter_next', 'ptr', a0='ro')
d('ec_comp_dump', 'void')

# ---------------------------------------------------------------- misc
d('ec_strcmp_count', 'len')
d('ec_str_startswith', 'any')
d('ec_str_is_space', 'bool')
d('ec_str_parse_llint ec_str_parse_ullint', 'int0')
d('ec_log ec_vlog', 'any')
d('ec_log_name', 'ptr!')
d('ec_log_type_register', 'any')
d('ec_log_fct_register ec_log_level_set', 'int0')
d('ec_log_level_get', 'any')
d('ec_log_default_cb', 'any')
d('ec_init', 'int0')
d('ec_exit', 'void')
d('ec_init_register', 'void', a0='hold')
d('ec_murmurhash3', 'any')
d('__ec_assert_print', 'void')
d('ec_yaml_import', 'own:node')

# ---------------------------------------------------------------- editline
d('ec_editline', 'own:editline')
d('ec_editline_free', 'void', a0='free')
d('ec_editline_get_node ec_editline_get_el', 'ptr')
d('ec_editline_set_node', 'void', a1='hold')
d('ec_editline_set_history ec_editline_set_prompt ec_editline_set_prompt_esc', 'int0')
d('ec_editline_print_cols ec_editline_print_helps', 'int')
d('ec_editline_free_completions', 'void', a0='free', special='table:0:1')
d('ec_editline_free_helps', 'void', a0='free',
  special='table:0/ec_editline_help.desc,ec_editline_help.help:1')
d('ec_editline_get_completions', 'int', a1='out:completions')
d('ec_editline_get_helps', 'int', a3='out:helps')
d('ec_editline_get_suggestions', 'int', a1='out:helps', a2='out:mem')
d('ec_editline_append_chars ec_editline_curline ec_editline_gets', 'own:mem')
d('ec_editline_parse', 'own:pnode')
d('ec_editline_complete', 'any')

# ---------------------------------------------------------------- libc and friends
d('strlen strnlen strspn strcspn', 'len', pure=False, a0='ro', a1='ro')
d('strcmp strncmp strcasecmp strncasecmp memcmp strcoll', 'any', a0='ro', a1='ro')
d('strchr strrchr strstr memchr strpbrk strcasestr memmem memrchr', 'ptr', a0='ro', a1='ro')
d('strchrnul rawmemchr', 'ptr!', a0='ro')
d('strtok_r strsep', 'ptr', a0='rw', a1='ro', a2='rw')
d('strtod strtof strtold', 'any', a0='ro', a1='rw')
d('abs labs llabs sleep usleep nanosleep write fseek fseeko ftell ftello rewind perror feof ferror', 'any',
  a0='ro', a1='ro')
d('sprintf', 'any', a0='rw', a1='ro', a2='ro', a3='ro', a4='ro', a5='ro')
d('vsprintf', 'any', a0='rw', a1='ro')
d('sscanf __isoc99_sscanf __isoc23_sscanf', 'any', a0='ro', a1='ro')
d('getline', 'any', a0='rw', a1='rw', a2='ro')
d('strverscmp', 'any', a0='ro', a1='ro')
d('bcmp', 'any', a0='ro', a1='ro')
d('secure_getenv', 'ptr', a0='ro')
d('isspace isprint isalpha isdigit isalnum tolower toupper isupper islower isblank iscntrl isgraph ispunct isxdigit', 'any')
d('fprintf printf fputs fputc putc puts fwrite putchar', 'any', a0='ro', a1='ro', a2='ro', a3='ro', a4='ro',
  a5='ro', a6='ro')
d('vfprintf vprintf', 'any', a0='ro', a1='ro')
d('snprintf', 'any', a0='rw', a2='ro', a3='ro', a4='ro', a5='ro')
d('vsnprintf', 'any', a0='rw', a2='ro')
d('fflush fileno setvbuf fgetc getc ungetc', 'any', a0='ro')
d('fgets', 'ptr', a0='rw', a2='ro')
d('fread', 'len', a0='rw', a3='ro')
d('__errno_location', 'errno')
d('__ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc', 'ptr!')
d('strtol strtoll strtoul strtoull __isoc23_strtol __isoc23_strtoll __isoc23_strtoul __isoc23_strtoull', 'any', a0='ro', a1='rw')
d('atoll atoi atol', 'any', a0='ro')
d('qsort_r', 'void', a0='rw', a3='ro', a4='rw')
d('strerror', 'ptr!')
d('qsort', 'void', a0='rw', a3='ro')
d('bsearch', 'ptr', a0='ro', a1='ro', a4='ro')
d('abort exit _exit __assert_fail', 'noreturn')
d('memcpy memmove strcpy strncpy strcat strncat', 'memcpy', a0='rw', a1='ro')
d('memset', 'memset')
d('getenv', 'ptr', a0='ro')
d('rand random time getpid srand srandom', 'any')
d('open', 'any', a0='ro')
d('read', 'any', a1='rw')
d('close', 'any')
d('isatty ioctl tcgetattr tcsetattr getopt', 'any')
d('getrandom', 'any', a0='rw')
d('stat64 lstat64 fstat64 fstatat64 readdir64', 'any')
d('stat lstat fstat __xstat access', 'int', a0='ro', a1='rw')
d('dirfd', 'any', a0='ro')
d('fstatat', 'int', a1='ro', a2='rw')
d('opendir', 'own:DIR', a0='ro')
d('closedir', 'any', a0='free')
d('readdir', 'ptr', a0='ro')
d('fopen fopen64 fdopen', 'own:FILE', a0='ro', a1='ro')
d('fclose', 'any', a0='free')
d('regcomp', 'regcomp', a1='ro')
d('regexec', 'any', a0='ro', a1='ro', a3='rw')
d('regfree', 'regfree')
d('regerror', 'any', a1='ro', a2='rw')
d('basename dirname', 'ptr', a0='rw')
d('gettimeofday clock_gettime', 'any')
# libyaml
d('yaml_parser_initialize', 'yinit')
d('yaml_parser_delete', 'ydelete')
d('yaml_parser_set_input_file', 'void', a0='ro', a1='ro')
d('yaml_parser_load', 'yload')
d('yaml_document_delete', 'ydocdelete')
d('yaml_document_get_root_node yaml_document_get_node', 'ptr', a0='ro')
# libedit
d('el_init', 'own:EditLine', a0='ro', a1='ro', a2='ro', a3='ro')
d('el_end', 'void', a0='free')
d('el_set', 'any', a0='ro', a2='ro', a3='ro', a4='ro')
d('el_wset el_get', 'any', a0='ro', a2='rw')
d('el_gets', 'ptr', a0='ro', a1='rw')
d('el_line', 'ptr!', a0='ro')
d('el_insertstr', 'any', a0='ro', a1='ro')
d('el_source el_resize el_reset el_beep el_parse el_deletestr el_push el_getc', 'any', a0='ro', a1='ro')
d('history_init', 'own:History')
d('history_end', 'void', a0='free')
d('history', 'any', a0='ro', a1='rw', a3='ro')

# functions analysed through a function-pointer slot: (struct, field) -> contract
SLOTS = {
    ('ec_node_type', 'parse'): C('parse', {0: 'ro', 1: 'rw', 2: 'ro'}),
    ('ec_node_type', 'complete'): C('int0', {0: 'ro', 1: 'rw', 2: 'ro'}),
    ('ec_node_type', 'desc'): C('own:mem', {0: 'ro'}),
    ('ec_node_type', 'init_priv'): C('int0', {0: 'rw'}),
    ('ec_node_type', 'free_priv'): C('void', {0: 'rw'}),
    ('ec_node_type', 'set_config'): C('int0', {0: 'rw', 1: 'ro'}),
    ('ec_node_type', 'get_children_count'): C('len', {0: 'ro'}),
    ('ec_node_type', 'get_child'): C('int0', {0: 'ro', 2: 'rw', 3: 'rw'}),
    ('ec_htable_elt', 'free'): C('void', {0: 'free'}),
    ('ec_vec', 'copy'): C('void', {0: 'rw', 1: 'ro'}),
    ('ec_vec', 'free'): C('void', {0: 'rw'}),
    ('ec_init', 'init'): C('int0'),
    ('ec_init', 'exit'): C('void'),
    ('ec_node_expr_eval_ops', 'eval_var'): C('int0', {0: 'out:user', 1: 'rw', 2: 'ro'}),
    ('ec_node_expr_eval_ops', 'eval_pre_op'): C('int0', {0: 'out:user', 2: 'consume_ok', 3: 'ro'}),
    ('ec_node_expr_eval_ops', 'eval_post_op'): C('int0', {0: 'out:user', 2: 'consume_ok', 3: 'ro'}),
    ('ec_node_expr_eval_ops', 'eval_bin_op'): C('int0', {0: 'out:user', 2: 'consume_ok', 3: 'ro', 4: 'consume_ok'}),
    ('ec_node_expr_eval_ops', 'eval_parenthesis'): C('int0', {0: 'out:user', 2: 'ro', 3: 'ro', 4: 'consume_ok'}),
    ('ec_node_expr_eval_ops', 'eval_free'): C('void', {0: 'free'}),
    ('ec_node_dynamic', 'build'): C('own:node', {0: 'rw', 1: 'ro'}),
    ('ec_node_file', 'lstat'): C('int', {0: 'ro', 1: 'rw'}),
    ('ec_node_file', 'opendir'): C('own:DIR', {0: 'ro'}),
    ('ec_node_file', 'readdir'): C('ptr', {0: 'ro'}),
    ('ec_node_file', 'closedir'): C('any', {0: 'free'}),
    ('ec_node_file', 'dirfd'): C('any', {0: 'ro'}),
    ('ec_node_file', 'fstatat'): C('int', {1: 'ro', 2: 'rw'}),
    ('ec_malloc_handler', 'malloc'): C('own:user', {}),
    ('ec_malloc_handler', 'realloc'): C('own:user', {}, special='realloc'),
    ('ec_malloc_handler', 'free'): C('void', {0: 'free'}),
}

# recursive file-local helpers (cannot be expanded in place)
STATIC = {
    'parse_ec_node': C('own:node', {0: 'rw', 1: 'ro', 2: 'ro'}),
    'parse_ec_config': C('own:config', {0: 'rw', 1: 'ro', 2: 'ro', 3: 'ro'}),
    'parse_ec_config_list': C('own:config', {0: 'rw'}),
    'parse_ec_config_dict': C('own:config', {0: 'rw'}),
    'ec_config_list_dup': C('own:config', {0: 'ro'}),
    'ec_config_dict_dup': C('own:config', {0: 'ro'}),
    'get_node_type': C('any', {0: 'ro', 1: 'ro'}),
    'eval_expression': C('int0', {0: 'rw', 1: 'rw', 2: 'ro', 3: 'ro', 4: 'ro'}),
    'eval_condition': C('own:mem', {0: 'ro', 1: 'ro'}),
    '__ec_pnode_dup': C('own:pnode', {0: 'ro', 2: 'rw'}, special='pdup'),
}

# function pointers kept in variables
GSLOTS = {
    'ec_log_fct': C('any', {2: 'ro', 3: 'ro'}),
}

# functions reached through an untyped table, recognised by their prototype (address taken, file local)
PROTO = {
    ('struct cond_result *', 'const struct ec_pnode *', 'struct cond_result * *', 'size_t'):
        C('own:mem', {0: 'ro', 1: 'consume'}, special='table:1:2'),
}

# families that are plain memory: releasing them releases nothing they point to
SHALLOW = {'mem', 'libc', 'table', 'user'}
# who releases what:  function -> (families it may be given)
RELEASE = {
    '__ec_free': {'mem', 'table'},
    'ec_free_func': {'mem', 'table'},
    'free': {'libc'},
    'closedir': {'DIR'}, 'fclose': {'FILE'}, 'el_end': {'EditLine'}, 'history_end': {'History'},
    'ec_vec_free': {'vec'}, 'ec_strvec_free': {'strvec'}, 'ec_htable_free': {'htable'}, 'ec_dict_free': {'dict'},
    'ec_config_free': {'config'}, 'ec_node_free': {'node'},
    'ec_pnode_free': {'pnode'}, 'ec_comp_free': {'comp'}, 'ec_editline_free': {'editline'},
    'ec_editline_free_completions': {'completions', 'libc'}, 'ec_editline_free_helps': {'helps', 'mem'},
}
