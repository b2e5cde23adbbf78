"""Which constructs each property rests on.

FUNCS:  property -> functions of the reviewed tree (shell patterns over the qualified name without the package prefix).
CONSTS: property -> module- or class-level constants.
RULES:  property -> structural rules (sa/rules.py).
"""
import fnmatch

T = 'tokenizer.Tokenizer.'
BLC = 'tokenizer.build_lattice_c'
LAT = 'lattice.Lattice.'
LN = 'latticenode.LatticeNode.'
IT = 'utf8inputtext.UTF8InputText.'
IB = 'utf8inputtextbuilder.UTF8InputTextBuilder.'
M = 'morpheme.Morpheme.'
ML = 'morphemelist.MorphemeList.'
D = 'dictionary.Dictionary.'
DL = 'dictionarylib.'
GR = DL + 'grammar.Grammar.'
LS = DL + 'lexiconset.LexiconSet.'
DA = DL + 'doublearraylexicon.DoubleArrayLexicon.'
DB = DL + 'dictionarybuilder.DictionaryBuilder.'
UDB = DL + 'userdictionarybuilder.UserDictionaryBuilder.'
BD = DL + 'binarydictionary.BinaryDictionary.'
DH = DL + 'dictionaryheader.DictionaryHeader.'
DV = DL + 'dictionaryversion.'
JB = DL + 'jtypedbytebuffer.JTypedByteBuffer.'
WIL = DL + 'wordinfolist.WordInfoList.'
WI = DL + 'wordinfo.WordInfo.'
WPL = DL + 'wordparameterlist.WordParameterList.'
WIT = DL + 'wordidtable.WordIdTable.'
CC = DL + 'charactercategory.CharacterCategory.'
CT = DL + 'categorytype.CategoryType.'
P = 'plugin.'
INH = P + 'connect_cost.inhibitconnectioncost.InhibitConnectionPlugin.'
ECC = P + 'connect_cost.editconnectioncost.EditConnectionCostPlugin.'
DIT = P + 'input_text.default_input_text_plugin.DefaultInputTextPlugin.'
PSM = P + 'input_text.prolongedsoundmark.ProlongedSoundMarkInputTextPlugin.'
MEC = P + 'oov.mecab_oov_plugin.MeCabOovPlugin.'
OPP = P + 'oov.oov_provider_plugin.OovProviderPlugin.'
SIM = P + 'oov.simple_oov_plugin.SimpleOovPlugin.'
JK = P + 'path_rewrite.join_katakana_oov_plugin.JoinKatakanaOovPlugin.'
JN = P + 'path_rewrite.join_numeric_plugin.JoinNumericPlugin.'
NP = P + 'path_rewrite.numericparser.NumericParser.'
SN = NP + 'StringNumber.'
PR = P + 'path_rewrite.path_rewrite_plugin.PathRewritePlugin.'
CL = 'command_line.'
ST = 'config._Settings.'


def _(prefix, names):
    return [prefix + n for n in names.split()]


#: functions that carry no property: diagnostics only
DIAGNOSTIC = [LAT + 'dump', T + '_dump_path', LN + '__str__', '*__default_logger', '*__logging_size', '*.__del__',
              CL + 'print_version']

FUNCS = {
    'C01': _(ML, 'get_begin get_end get_surface __getitem__ __len__ size __str__ __init__ split empty __iter__') +
           _(M, 'begin end surface __init__ __str__ split') +
           _(IT, '__init__ get_original_text get_text get_byte_text get_original_index get_offset_text_length') +
           _(IB, '__init__ replace build utf8_byte_length get_text get_original_text') +
           _(T, 'tokenize _build_lattice _split_path') + [BLC] +
           _(LN, 'get_begin get_end set_begin set_end set_range') +
           _(PR, 'concatenate concatenate_oov') + _(OPP, 'get_oov') +
           _(LAT, 'insert create_node get_best_path connect_node connect_eos_node get_nodes_with_end') +
           [SIM + 'provide_oov', MEC + 'get_oov_node', JK + 'rewrite', JN + '*'] + _(IT, 'get_word_candidate_length'),
    'C02': _(IB, '*') + _(IT, '__init__ get_original_text get_text get_byte_text get_original_index '
                              'get_offset_text_length get_code_points_offset_length'),
    'C03': [DIT + '*'] + _(IB, '__init__ replace get_text'),
    'C04': [PSM + '*'] + _(IB, '__init__ replace get_text'),
    'C05': [IT + '*'] + _(IB, '__init__ build get_char_category_types get_char_category_continuities '
                              'get_char_category_continuous_length utf8_byte_length _build_can_bow_list') +
           [CC + 'get_category_types', PR + 'get_char_category_types'],
    'C06': [BLC, T + '_build_lattice'] +
           _(IT, '__init__ can_bow get_word_candidate_length get_char_category_types '
                 'get_char_category_continuous_length') +
           _(IB, 'build _build_can_bow_list get_char_category_types utf8_byte_length') +
           [SIM + 'provide_oov', OPP + 'get_oov', OPP + 'create_node', MEC + 'provide_oov'] +
           _(DA, 'lookup') + _(LAT, 'has_previous_node') + [LS + 'lookup', LS + '__lookup'],
    'C07': [LAT + '*', BLC, T + '_build_lattice', T + 'tokenize'] +
           _(LN, '__init__ set_parameter get_path_cost get_left_id get_right_id get_begin get_end set_range set_begin '
                 'set_end') +
           _(GR, '__init__ get_connect_cost get_bos_parameter get_eos_parameter') +
           _(WPL, '__init__ get_left_id get_right_id get_cost') + _(LS, 'get_left_id get_right_id get_cost') +
           _(DA, 'get_left_id get_right_id get_cost') + [OPP + 'get_oov', OPP + 'create_node', MEC + 'get_oov_node',
                                                         SIM + 'provide_oov', SIM + 'set_up'],
    'C08': _(LAT, '__init__ resize connect_node connect_eos_node get_best_path insert has_previous_node expand clear') +
           [INH + '*', ECC + '*'] + _(GR, '__init__ get_connect_cost set_connect_cost') + [D + '__init__', BLC] +
           _(LN, '__init__ set_parameter') + [P + 'connect_cost.*'],
    'C09': [T + '__init__', T + 'tokenize', T + '_build_lattice', T + '_split_path', BLC, LAT + '*',
            JN + '*', NP + '*', SN + '*', JK + 'rewrite', DIT + 'rewrite', PSM + 'rewrite', MEC + 'provide_oov',
            MEC + 'get_oov_node', SIM + 'provide_oov', OPP + 'get_oov', OPP + 'create_node'] +
           _(LN, '__init__ set_parameter get_word_info') + _(IB, '__init__ build') +
           _(LS, 'lookup __lookup get_word_info') + [DA + 'lookup'] + [PR + '*'] + [WIL + '*', D + 'create'] +
           [IB + '*', IT + '*', ML + '*', M + '*', CC + 'get_category_types'],
    'C10': [MEC + 'provide_oov', JK + 'rewrite', JK + 'is_katakana_node', PR + '*', LAT + 'connect_node',
            LAT + 'get_minimum_node', LAT + 'connect_eos_node', LAT + 'insert', LS + 'lookup', LS + '__lookup',
            DA + 'lookup', BLC, CC + '_compile', CC + 'get_category_types', T + 'tokenize', T + '_build_lattice',
            OPP + 'get_oov', IB + '_build_can_bow_list', IB + 'get_char_category_continuities',
            IB + 'get_char_category_continuous_length', D + '__init__', DB + 'add_to_trie', DB + 'write_lexicon',
            DB + 'write_wordinfo', DIT + 'rewrite', IT + 'get_char_category_types', WIT + 'get'],
    'C11': [BLC, T + '_build_lattice', T + 'tokenize', T + '__init__', SIM + '*', OPP + '*', MEC + 'provide_oov',
            ML + 'empty', D + 'create'] +
           _(LAT, 'has_previous_node connect_eos_node get_best_path insert connect_node resize') +
           _(IT, 'get_word_candidate_length can_bow get_char_category_types') + _(LS, 'lookup __lookup') +
           [DA + 'lookup', D + '__init__'],
    'C12': [MEC + '*', OPP + '*'] +
           _(IT, 'get_char_category_types get_char_category_continuous_length get_code_points_offset_length '
                 'get_substring') +
           _(IB, 'build get_char_category_types get_char_category_continuities get_char_category_continuous_length') +
           _(LAT, 'create_node') + _(LN, 'set_parameter set_word_info set_oov set_range') + [WI + '__init__'],
    'C13': [T + 'tokenize', T + '_split_path', T + '__init__', M + 'split', D + 'create'] +
           _(ML, 'split __init__ get_begin get_end get_surface get_word_info __getitem__ __len__ size __iter__ is_oov') +
           [WI + '*', WIL + 'get_word_info', WIL + 'buffer_to_int_array', LS + 'get_word_info', LS + 'convert_split'] +
           _(LN, '__init__ get_word_info set_word_info get_begin get_end set_begin set_end set_range set_parameter '
                 'is_oov set_oov') + [DA + 'get_word_info'],
    'C14': [M + '*', ML + '*', WI + '*'] +
           _(LN, '__init__ get_word_info set_word_info get_word_id get_dictionary_id is_oov set_oov is_defined '
                 'set_defined') +
           _(WIL, 'get_word_info buffer_to_string buffer_to_int_array word_id_to_offset buffer_to_string_length') +
           [LS + 'get_word_info', LS + 'get_dictionary_id', DA + 'get_word_info',
            GR + 'get_part_of_speech_string'],
    'C15': [LN + '*', OPP + '*', PR + '*', BLC, LAT + 'create_node', MEC + 'get_oov_node', SIM + 'provide_oov',
            JK + 'rewrite', JN + '_concat', T + '_split_path'] +
           _(ML, 'is_oov get_word_info split') + _(M, 'is_oov dictionary_id word_id') +
           _(LS, 'get_dictionary_id get_word_id get_word_id1 build_word_id lookup __lookup add __init__'),
    'C16': [LS + '*', BLC] + _(LN, '__init__ set_parameter get_word_id get_dictionary_id get_word_info') +
           _(M, 'word_id dictionary_id') + _(DA, 'get_word_id get_word_info') + [T + '_split_path', ML + 'split'],
    'C17': [DA + 'lookup', DA + 'get_word_id', DA + '_compare_word_id', DA + '__init__', DA + 'size',
            DA + 'get_word_info', WIT + '*', WIL + '*', DB + 'add_to_trie', DB + 'write_lexicon'] +
           _(LS, '__init__ lookup __lookup get_word_id add get_word_id1 build_word_id'),
    'C18': [LS + '*', UDB + '*'] + _(D, '__init__ _read_user_dictionary _read_system_dictionary') +
           _(GR, '__init__ add_pos_list get_part_of_speech_size get_part_of_speech_string get_part_of_speech_id') +
           _(BD, '*') + _(DB, 'get_posid parse_line convert_postable write_grammar check_wordid get_wordid '
                              'parse_splitinfo parse_id word_to_id check_splitinfo_format') +
           [DB + 'PosTable.*', WIL + 'get_word_info', M + 'part_of_speech', M + 'part_of_speech_id',
            DA + 'get_word_info'],
    'C19': [D + '*', DA + 'calculate_cost', DA + 'get_cost', DA + 'size', DA + '__init__', DA + 'get_word_info'] +
           _(LS, '__init__ add is_full size') + [ML + 'get_internal_cost', WPL + '*', LN + 'get_path_cost'] +
           [BD + '*', T + 'tokenize', P + 'oov.utils.*', P + 'input_text.utils.*', P + 'path_rewrite.utils.*',
            GR + 'add_pos_list', GR + 'set_character_category', ML + 'size', ML + '__len__', ST + 'user_dict_paths', ST + 'system_dict_path'],
    'C20': [DH + '*', JB + '*', BD + '_read_dictionary', CL + '_command_build', CL + '_command_user_build'],
    'C21': [DV + '*', BD + '*', DH + '*', CL + '_command_build', CL + '_command_user_build', WIL + 'get_word_info',
            WIL + '__init__', DA + '__init__', D + '_read_system_dictionary', D + '_read_user_dictionary'],
    'C22': [GR + '*', BD + '_read_dictionary', BD + '__init__', JB + '*', UDB + 'build', UDB + 'get_posid'] +
           _(DB, 'build write_grammar convert_postable convert_matrix write_string write_stringlength get_posid '
                 'parse_line __init__ __utf16_length __is_length_valid') +
           [DB + 'PosTable.*'],
    'C23': _(DB, '__init__ build build_lexicon parse_line add_to_trie write_lexicon write_wordinfo write_string '
                 'write_stringlength write_intarray parse_synonym_group_ids parse_splitinfo parse_id word_to_id '
                 'decode get_posid get_wordid __utf16_length') +
           [DB + 'PosTable.*', DA + '*', WIL + '*', WPL + '*', WIT + '*', WI + '*', UDB + 'build', JB + '*',
            BD + '_read_dictionary'],
    'C24': [JB + '*', WIL + '*', WPL + '*', WIT + '*', DH + '*'] +
           _(DB, 'write_string write_stringlength write_intarray __is_length_valid __utf16_length write_lexicon '
                 'write_wordinfo convert_matrix convert_postable write_grammar add_to_trie parse_line') +
           _(GR, '__init__ bytes_get_string bytes_get_short'),
    'C25': _(DB, 'parse_line __is_length_valid __utf16_length get_posid decode check_splitinfo_format '
                 'parse_splitinfo __is_id parse_id word_to_id get_wordid check_wordid parse_synonym_group_ids '
                 'build_lexicon write_wordinfo write_lexicon write_intarray write_string write_stringlength '
                 'add_to_trie __init__') + [DB + 'PosTable.*', UDB + '*', WI + '*'],
    'C26': _(DB, 'parse_splitinfo parse_id __is_id word_to_id get_wordid check_wordid check_splitinfo_format decode '
                 'write_wordinfo write_intarray parse_line get_posid') +
           [UDB + '*', DB + 'PosTable.*', DA + 'get_word_id', DA + '_compare_word_id', LS + 'get_word_id', LS + 'size',
            DA + 'size', WIL + 'size', WPL + 'get_size'],
    'C27': [CC + '*', CT + '*', IB + 'get_char_category_types', GR + 'get_character_category',
            GR + 'set_character_category', D + '_read_character_definition', IT + 'get_char_category_types'],
    'C28': [CC + 'read_character_definition', CC + '_compile', CT + '*', DIT + 'read_rewrite_lists', DIT + 'set_up',
            DIT + '__init__', MEC + 'read_character_property', MEC + 'read_oov', MEC + 'set_up', MEC + '__init__',
            MEC + 'CategoryInfo.*', MEC + 'OOV.*', D + '_read_character_definition', GR + 'get_part_of_speech_id',
            CC + '__init__', CC + 'Range.*'],
    'C29': [JN + '*', NP + '*', SN + '*', PR + 'concatenate', PR + 'get_char_category_types'],
    'C30': [JK + '*', PR + 'get_char_category_types', PR + 'concatenate_oov', IT + 'code_point_count',
            IT + 'get_char_category_types', LN + 'is_oov', GR + 'get_part_of_speech_id', LAT + 'get_minimum_node'],
    'C31': [PR + '*', WI + '*', JN + '_concat'] + _(LAT, 'get_minimum_node create_node get_nodes get_nodes_with_end '
                                                         'insert') +
           _(LN, 'set_range set_word_info set_oov set_defined get_begin get_end set_begin set_end get_word_info '
                 'get_path_cost is_defined is_oov __init__ set_parameter') + [JK + 'rewrite', JN + 'rewrite'],
    'C32': ['config.*'] + _(D, '__init__ _read_system_dictionary _read_user_dictionary _read_character_definition') +
           [DIT + 'set_up', MEC + 'set_up', PSM + 'set_up', DIT + '__init__', CL + 'run',
            CL + '_command_tokenize', CL + '_system_dic_checker', CL + '_command_user_build'],
    'C33': [P + '*.utils.*', P + '*.set_up', P + '*.__init__', D + '__init__', D + 'create',
            T + '__init__', T + 'tokenize', T + '_build_lattice', BLC],
    'C34': [CL + '_command_tokenize', CL + 'run', CL + 'main', CL + '_set_default_subparser',
            CL + '_input_files_checker', CL + 'print_version', M + '*', D + '__init__', D + 'create', ML + 'is_oov',
            ML + '__iter__', ML + '__len__', ML + '__getitem__', ML + 'size'],
    'C35': [CL + '_command_build', CL + '_command_user_build', CL + '_*_checker', CL + 'main',
            CL + '_set_default_subparser', UDB + '*', DH + 'to_bytes', DH + '__init__'] +
           _(DB, '__init__ build build_lexicon write_grammar write_lexicon convert_postable convert_matrix'),
    'C36': [],
    'C37': [],
    'C38': [],
    'C39': [T + 'tokenize', T + '__init__', CL + 'run'],
}

RULES = {
    'C01': ['diagnostics'],
    'C07': ['ctypes', 'diagnostics', 'directives'],
    'C08': ['ctypes', 'directives'],
    'C09': ['lattice_reset', 'diagnostics'],
    'C10': ['ordering', 'nondeterminism'],
    'C11': ['noexcept', 'directives'],
    'C14': ['protocols'],
    'C16': ['ctypes', 'protocols'],
    'C18': ['protocols'],
    'C19': ['protocols'],
    'C27': ['protocols'],
    'C31': ['protocols'],
    'C34': ['diagnostics'],
    'C36': ['writes'],
    'C37': ['closing'],
    'C38': ['resources'],
    'C39': ['diagnostics'],
}


def short(qual):
    return qual.split('.', 1)[1]


def match(patterns, name):
    return any(p == name or fnmatch.fnmatchcase(name, p) for p in patterns)


def functions(prop, quals):
    """Functions of the reviewed tree the property rests on."""
    pats = FUNCS[prop]
    return sorted(q for q in quals if match(pats, short(q)) and not match(DIAGNOSTIC, short(q)))


def unmatched(quals):
    """Patterns that name nothing: mistakes of this table."""
    out = []
    for p, pats in FUNCS.items():
        for x in pats:
            if not any(fnmatch.fnmatchcase(short(q), x) for q in quals):
                out.append((p, x))
    return out
