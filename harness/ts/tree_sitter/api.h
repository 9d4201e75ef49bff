// Stand-in for the tree-sitter C API: the trees are handed over by the harness, which writes the program text and its tree together.
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct TSLanguage TSLanguage; typedef struct TSParser TSParser; typedef struct TSTree TSTree;
typedef struct { uint32_t row, column; } TSPoint;
typedef struct { uint32_t context[4]; const void* id; const TSTree* tree; } TSNode;
TSParser* ts_parser_new(void); void ts_parser_delete(TSParser*); bool ts_parser_set_language(TSParser*, const TSLanguage*);
TSTree* ts_parser_parse_string(TSParser*, const TSTree*, const char*, uint32_t);
void ts_tree_delete(TSTree*); TSNode ts_tree_root_node(const TSTree*);
const char* ts_node_type(TSNode); uint32_t ts_node_start_byte(TSNode); uint32_t ts_node_end_byte(TSNode); TSPoint ts_node_start_point(TSNode); TSPoint ts_node_end_point(TSNode);
bool ts_node_is_null(TSNode); bool ts_node_is_named(TSNode); uint32_t ts_node_child_count(TSNode); TSNode ts_node_child(TSNode, uint32_t); uint32_t ts_node_named_child_count(TSNode); TSNode ts_node_named_child(TSNode, uint32_t);
TSNode ts_node_parent(TSNode); TSNode ts_node_next_sibling(TSNode); TSNode ts_node_prev_sibling(TSNode); TSNode ts_node_next_named_sibling(TSNode); TSNode ts_node_prev_named_sibling(TSNode); bool ts_node_eq(TSNode, TSNode); bool ts_node_has_error(TSNode); bool ts_node_is_missing(TSNode); bool ts_node_is_extra(TSNode);
#ifdef __cplusplus
}
#endif
