"""Which internal functions a run-time contract calls directly, with the parameter list the contract is written for.

A contract on an internal function is only meaningful while that function exists with that interface; when it does not (a
rename, a changed signature) the case is skipped, never reported, and the end-to-end contracts decide."""
import inspect

T = "track.tracker."
USES = {
    "case_hist_kernel": {"detect._rolling_histogram_quantile": ["hist_chunk", "window_days_hobday", "q", "bin_centers"]},
    "case_fill_struct": {T + "fill_holes": ["self", "data_bin", "R_fill"]},
    "case_fill_mesh": {T + "fill_holes": ["self", "data_bin", "R_fill"]},
    "case_sparse_power": {"track.sparse_bool_power": ["vec", "sp_data", "indices", "indptr", "exponent"]},
    "case_time_gaps": {T + "fill_time_gaps": ["self", "data_bin"]},
    "case_filter": {T + "filter_small_objects": ["self", "data_bin"]},
    "case_identify": {T + "identify_objects": ["self", "data_bin", "time_connectivity"]},
    "case_overlap_slice": {T + "check_overlap_slice": ["self", "ids_t0", "ids_next"]},
    "case_find_overlaps": {T + "find_overlapping_objects": ["self", "object_id_field"], T + "identify_objects": ["self", "data_bin", "time_connectivity"]},
    "case_threshold": {T + "enforce_overlap_threshold": ["self", "overlap_objects_list", "object_props"]},
    "case_nn_grid": {"track.partition_nn_grid": ["child_mask", "parent_masks", "child_ids", "parent_centroids", "Nx", "max_distance", "wrap"]},
    "case_dist_kernel": {"track.wrapped_euclidian_distance_mask_parallel": ["mask_values", "parent_centroids_values", "Nx", "wrap"]},
    "case_nn_mesh": {"track.partition_nn_unstructured": ["child_mask", "parent_masks", "child_ids", "parent_centroids", "neighbours_int", "lat", "lon", "max_distance"],
                     "track.partition_nn_unstructured_optimised": ["child_mask", "parent_frontiers", "parent_centroids", "neighbours_int", "lat", "lon", "max_distance"]},
    "case_centroid_mesh": {"track.partition_centroid_unstructured": ["child_mask", "parent_centroids", "child_ids", "lat", "lon"]},
    "case_zarr": {"helper.checkpoint_to_zarr": ["data", "name", "cleanup", "timedim"]},
    "case_tuple_fix": {"helper.fix_dask_tuple_array": ["da"]},
}


def resolve(common, path):
    o = {"detect": common.detect, "track": common.track, "helper": common.helper}[path.split(".")[0]]
    for a in path.split(".")[1:]:
        o = getattr(o, a)
    return o


def params(f):
    return list(inspect.signature(getattr(f, "py_func", f)).parameters)


def mismatch(common, case):
    for p, want in USES.get(case, {}).items():
        try:
            got = params(resolve(common, p))
        except AttributeError:
            return f"{p} does not exist"
        if want is not None and got != want:
            return f"{p} has parameters {got}"
    return None
