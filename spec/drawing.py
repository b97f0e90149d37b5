"""Graph drawings and printed summaries."""
import graphviz
import matplotlib.pyplot as plt
import networkx as nx
import numpy as np
from matplotlib import colors as mcolors
from matplotlib.colors import is_color_like
from sklearn.utils import check_array, check_scalar


@defines('C20', 'make_dot', observe=['return', 'call:.node', 'call:.edge', 'call:.attr', 'call:.subgraph'])
def define_make_dot(adjacency_matrix, labels=None, lower_limit=0.01, prediction_feature_indices=None, prediction_target_label='Y(pred)', prediction_line_color='red', prediction_coefs=None, prediction_feature_importance=None, path=None, path_color=None, detect_cycle=False, ignore_shape=False):
    """graph with one edge per non-zero coefficient"""
    B = check_array(np.nan_to_num(adjacency_matrix))
    if not ignore_shape and B.shape[0] != B.shape[1]:
        raise ValueError("'adjacency_matrix' is not square matrix.")
    if labels is not None:
        if B.shape[1] != len(labels):
            raise ValueError("Length of 'labels' does not match length of 'adjacency_matrix'")
    if prediction_feature_indices is not None:
        if prediction_coefs is not None and len(prediction_feature_indices) != len(prediction_coefs):
            raise ValueError("Length of 'prediction_coefs' does not match length of 'prediction_feature_indices'")
        if prediction_feature_importance is not None and len(prediction_feature_indices) != len(prediction_feature_importance):
            raise ValueError("Length of 'prediction_feature_importance' does not match length of 'prediction_feature_indices'")
    if path is not None:
        if not isinstance(path, tuple) or len(path) < 2:
            raise TypeError("'path' should be a tuple of node indices.")
        if path_color is not None and (not is_color_like(path_color)):
            raise ValueError("'path_color' should be an color name.")
        if path_color is None:
            path_color = 'black'
        path_start = check_scalar(path[0], 'path_start', int, min_val=0, max_val=B.shape[0])
        path_end = check_scalar(path[1], 'path_end', int, min_val=0, max_val=B.shape[0])
    if detect_cycle is not None:
        if not isinstance(detect_cycle, bool):
            raise TypeError("'detect_cycle' should be boolean.")
    idx = np.abs(B) > lower_limit
    nx_graph = None
    if path is not None or detect_cycle is True:
        nx_graph = nx.from_numpy_array(idx.astype(int).T, create_using=nx.DiGraph)
    path_edges = None
    path_nodes = None
    if path is not None:
        path_edges = set()
        for path_ in nx.all_simple_paths(nx_graph, path[0], path[1]):
            path_edges |= set(zip(path_, path_[1:]))
        path_nodes = np.unique([list(edge) for edge in path_edges])
        if labels is None:
            path_nodes = [f'x{node}' for node in path_nodes]
        else:
            path_nodes = [labels[node] for node in path_nodes]
    cycle_edges = []
    if detect_cycle is True:
        for cycle in nx.simple_cycles(nx_graph):
            es = list(zip(cycle, np.roll(cycle, -1)))
            cycle_edges.append(es)
        cycle_edges = sum(cycle_edges, start=[])
    d = graphviz.Digraph(engine='dot')
    names = labels if labels else [f'x{i}' for i in range(len(B))]
    for name in names:
        kwargs = {}
        if path is not None:
            if name in path_nodes:
                kwargs['fontcolor'] = path_color
                kwargs['color'] = path_color
            if name == names[path_start] or name == names[path_end]:
                kwargs['peripheries'] = '2'
        d.node(name, **kwargs)
    dirs = np.where(idx)
    for to, from_, coef in zip(dirs[0], dirs[1], B[idx]):
        kwargs = {}
        if path is not None and (from_, to) in path_edges:
            kwargs['penwidth'] = '2'
            kwargs['fontcolor'] = path_color
            kwargs['color'] = path_color
        if detect_cycle is True and (from_, to) in cycle_edges:
            kwargs['style'] = 'dashed'
        d.edge(names[from_], names[to], label=f'{coef:.2f}', **kwargs)
    if prediction_feature_indices is not None:
        d.node(prediction_target_label, color=prediction_line_color, fontcolor=prediction_line_color)
        if prediction_coefs is not None:
            for from_, coef in zip(prediction_feature_indices, prediction_coefs):
                if np.abs(coef) > lower_limit:
                    d.edge(names[from_], prediction_target_label, label=f'{coef:.2f}', color=prediction_line_color, fontcolor=prediction_line_color, style='dashed')
        elif prediction_feature_importance is not None:
            for from_, imp in zip(prediction_feature_indices, prediction_feature_importance):
                d.edge(names[from_], prediction_target_label, label=f'({imp})', color=prediction_line_color, fontcolor=prediction_line_color, style='dashed')
        else:
            for from_ in prediction_feature_indices:
                d.edge(names[from_], prediction_target_label, color=prediction_line_color, style='dashed')
    unk_order = np.where(np.isnan(np.tril(adjacency_matrix)))
    unk_order_set = set([val for item in unk_order for val in item])
    with d.subgraph() as s:
        s.attr(rank='same')
        for node in unk_order_set:
            s.node(names[node])
    for to, from_ in zip(unk_order[0], unk_order[1]):
        d.edge(names[from_], names[to], dir='both')
    return d


@defines('C20', 'make_dot_highlight', observe=['return', 'call:.node', 'call:.edge', 'call:.subgraph'])
def define_make_dot_highlight(adjacency_matrix, node_index, labels=None, max_dsc=None, max_anc=None, lower_limit=None, cmap=None, draw_others=True, detect_cycle=False, path=None, path_color=None, vmargin=2, hmargin=2):
    """graph highlighting the paths through a node"""
    cls_margin_l = 1.5
    cls_margin_r = 0.6
    cls_margin_t = 0.6
    cls_margin_b = 0.4
    cls_space_target_other = 0.2
    adj = check_array(adjacency_matrix, ensure_2d=True, ensure_min_samples=2, ensure_min_features=2, copy=True)
    if adj.shape[0] != adj.shape[1]:
        raise ValueError
    node_index = check_scalar(node_index, 'node_index', int, min_val=0, max_val=adj.shape[0], include_boundaries='left')
    if labels is None:
        node_names = [f'x{i}' for i in range(adj.shape[1])]
    else:
        node_names = check_array(labels, ensure_2d=False, dtype=str)
        if len(node_names) != adj.shape[1]:
            raise ValueError
    if max_dsc is not None:
        max_dsc = check_scalar(max_dsc, 'max_dsc', int, min_val=0)
    if max_anc is not None:
        max_anc = check_scalar(max_anc, 'max_anc', int, min_val=0)
    if lower_limit is not None:
        lower_limit = check_scalar(lower_limit, 'lower_limit', (int, float))
    draw_others = check_scalar(draw_others, 'draw_others', bool)
    detect_cycle = check_scalar(detect_cycle, 'detect_cycle', bool)
    path_start = None
    path_end = None
    if path is not None:
        if not isinstance(path, tuple) or len(path) < 2:
            raise TypeError("'path' should be a tuple of node indices.")
        if path_color is not None and (not is_color_like(path_color)):
            raise ValueError("'path_color' should be an color name.")
        if path_color is None:
            path_color = 'black'
        path_start = check_scalar(path[0], 'start', int, min_val=0, max_val=adj.shape[0])
        path_end = check_scalar(path[1], 'end', int, min_val=0, max_val=adj.shape[0])
    vmargin = check_scalar(vmargin, 'vmargin', (float, int), min_val=1)
    hmargin = check_scalar(hmargin, 'hmargin', (float, int), min_val=1)
    if lower_limit is not None:
        adj[abs(adj) < lower_limit] = 0
    G = nx.from_numpy_array(~np.isclose(adj.T, 0), create_using=nx.DiGraph)
    dsc_path_length = nx.single_source_shortest_path_length(G, node_index, cutoff=max_dsc)
    del dsc_path_length[node_index]
    anc_path_length = nx.single_source_shortest_path_length(G.reverse(), node_index, cutoff=max_anc)
    del anc_path_length[node_index]
    dsc_indices = set(dsc_path_length.keys())
    anc_indices = set(anc_path_length.keys())
    isolate_indices = set(nx.isolates(G))
    other_indices = set(np.arange(adj.shape[0])) - dsc_indices - anc_indices - isolate_indices - set([node_index])
    clusters = {}
    clusters[0] = [node_index]
    clusters[None] = sorted(other_indices) + sorted(isolate_indices)
    for node in dsc_indices:
        d = dsc_path_length[node]
        if d not in clusters.keys():
            clusters[d] = []
        clusters[d].append(node)
    for node in anc_indices:
        d = -anc_path_length[node]
        if d not in clusters.keys():
            clusters[d] = []
        clusters[d].append(node)
    path_edges = None
    path_nodes = None
    if path is not None:
        path_edges = set()
        for path_ in nx.all_simple_paths(G, path_start, path_end):
            path_edges |= set(zip(path_, path_[1:]))
        path_nodes = np.unique([list(edge) for edge in path_edges])
        path_nodes = [node_names[node] for node in path_nodes]
    graph_attr = {'rankdir': 'TB', 'splines': 'true'}
    graph = graphviz.Digraph('graph', engine='neato', graph_attr=graph_attr)
    ds = sorted([d for d in clusters.keys() if d is not None])
    if cmap is None:
        cluster_colors = {d: 'black' for d in ds}
    else:
        cmap = plt.get_cmap(cmap)
        cs = np.linspace(0, 1, len(ds) + 1)
        cluster_colors = dict(zip(ds, cmap(cs)))
    cluster_colors[None] = cluster_colors[0]
    pos_y_map = {0: 0, None: 0}
    dsc_dists = sorted([d for d in clusters.keys() if d is not None and 0 < d])
    for i, dist in enumerate(dsc_dists):
        pos_y_map[dist] = -(i + 1) * vmargin
    anc_dists = sorted([d for d in clusters.keys() if d is not None and d < 0], key=abs)
    for i, dist in enumerate(anc_dists):
        pos_y_map[dist] = (i + 1) * vmargin
    get_cluster_name = lambda dist: f'cluster{dist}'
    get_node_id = lambda cl, node: f'{cls_name}-{node}'
    node_ids = {node: [] for node in np.arange(adj.shape[0])}
    for dist, nodes in clusters.items():
        if dist is None and draw_others is False:
            continue
        if len(nodes) == 0:
            continue
        if dist == 0:
            cls_label = 'target'
            offset_x = 0
        elif dist is None:
            cls_label = 'others'
            offset_x = cls_margin_r + cls_margin_l + cls_space_target_other
            nodes = sorted(nodes, key=lambda x: (x in isolate_indices, x in other_indices, x))
        else:
            cls_label = f'ancestor {abs(dist)}' if dist < 0 else f'descendant {abs(dist)}'
            offset_x = 0
            nodes = sorted(nodes)
        pos_y = pos_y_map[dist]
        color = mcolors.to_hex(cluster_colors[dist], keep_alpha=True)
        cls_name = get_cluster_name(dist)
        graph_attr = {'style': 'dashed', 'label': cls_label, 'labeljust': 'l', 'color': color}
        with graph.subgraph(name=cls_name, graph_attr=graph_attr) as c:
            for i, node in enumerate(nodes):
                node_id = get_node_id(cls_name, node)
                pos_x = hmargin * i + offset_x
                kwargs = {}
                if path is not None:
                    if node in path_nodes:
                        kwargs['fontcolor'] = path_color
                        kwargs['color'] = path_color
                    if node == path_start or node == path_end:
                        kwargs['peripheries'] = '2'
                c.node(node_id, node_names[node], pos=f'{pos_x},{pos_y}!', color=color, **kwargs)
                node_ids[node].append((node_id, dist))
            x = -cls_margin_l + offset_x
            y = pos_y + cls_margin_t
            c.node(f'{cls_name}-dummy_upper', '', pos=f'{x},{y}!', style='invis', fixedsize='true', width='0', height='0')
            x = (len(nodes) - 1) * hmargin + cls_margin_r + offset_x
            y = pos_y - cls_margin_b
            c.node(f'{cls_name}-dummy_lower', '', pos=f'{x},{y}!', style='invis', fixedsize='true', width='0', height='0')
    cycle_edges = []
    if detect_cycle is True:
        for cycle in nx.simple_cycles(G):
            es = list(zip(cycle, np.roll(cycle, -1)))
            cycle_edges.append(es)
        cycle_edges = sum(cycle_edges, start=[])
    other_nodes = isolate_indices | other_indices
    valid_nodes = other_nodes | dsc_indices | anc_indices | set([node_index])
    edges = np.argwhere(~np.isclose(adj, 0))
    for h, t in edges:
        if draw_others is False and (t in other_nodes or h in other_nodes):
            continue
        if t not in valid_nodes or h not in valid_nodes:
            continue
        for tail_id, dist_t in node_ids[t]:
            for head_id, dist_h in node_ids[h]:
                color = cluster_colors[dist_h]
                color = mcolors.to_hex(color, keep_alpha=True)
                kwargs = {'color': color}
                if path is not None and (t, h) in path_edges:
                    kwargs['penwidth'] = '2'
                    kwargs['fontcolor'] = path_color
                    kwargs['color'] = path_color
                if detect_cycle is True and (t, h) in cycle_edges:
                    kwargs['style'] = 'dashed'
                graph.edge(tail_id, head_id, label=f'{adj[h, t]:.2f}', **kwargs)
    return graph


@defines('C20', 'print_causal_directions', observe=['call:print'])
def define_print_causal_directions(cdc, n_sampling, labels=None):
    """one printed line per direction"""
    for i, (fr, to, co) in enumerate(zip(cdc['from'], cdc['to'], cdc['count'])):
        sign = '' if 'sign' not in cdc else '(b>0)' if cdc['sign'][i] > 0 else '(b<0)'
        if labels:
            print(f'{labels[to]} <--- {labels[fr]} {sign} ({100 * co / n_sampling:.1f}%)')
        else:
            print(f'x{to} <--- x{fr} {sign} ({100 * co / n_sampling:.1f}%)')


@defines('C20', 'print_dagc', observe=['call:print'])
def define_print_dagc(dagc, n_sampling, labels=None):
    """printed lines per graph"""
    for i, (dag, co) in enumerate(zip(dagc['dag'], dagc['count'])):
        print(f'DAG[{i}]: {100 * co / n_sampling:.1f}%')
        for j, (fr, to) in enumerate(zip(dag['from'], dag['to'])):
            sign = '' if 'sign' not in dag else '(b>0)' if dag['sign'][j] > 0 else '(b<0)'
            if labels:
                print('\t' + f'{labels[to]} <--- {labels[fr]} {sign}')
            else:
                print('\t' + f'x{to} <--- x{fr} {sign}')
