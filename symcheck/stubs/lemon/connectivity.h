#include <lemon/list_graph.h>
