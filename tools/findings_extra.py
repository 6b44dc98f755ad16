MORE = {
    "a failed MPI test": "C27", "opened read only could not be saved": "C07", "median of large integers": "C17", "map selections replaced": "C26",
    "a single slice could not select": "C07", "environments given with variables": "C28",
    "concatenating into a file": "C11", "concatenate changed its": "C11", "concatenate did not copy": "C11", "time axes of Zarr": "C11",
    "lock_file could hide": "C12", "could not write their output": "C12", "existing Zarr directory": "C12", "copy of an HDF5 group": "C12",
    "one array into another": "C13", "key_pattern": "C13",
    "did not report their line numbers": "C14", "without a pipeline section": "C14", "task type without a module": "C14", "save_config was false": "C14",
    "float_in_range accepted NaN": "C15", "file_format properties refused": "C15",
    "single and iterating tasks failed": "C16", "output to the current directory": "C16", "Delete and MakeCopy": "C16", "untagged inputs": "C16",
    "weighted quantile accepted": "C17", "weighted quantile failed": "C17", "lower zero quantile": "C17",
    "spherical Bessel": "C25", "chunks and compression were ignored": "C05", "jl returned only": "C25", "cart_to_sph": "C25", "norm_vec2": "C25",
    "searches for transits": "C24", "datetime_to_timestr": "C24", "time_of_day": "C24", "conversions of empty": "C24", "scalarized functions": "C24", "unix_to_lst": "C24",
    "list_of_filelists": "C26", "file groups supported": "C26", "WaitZarrZip": "C26", "SaveZarrZip": "C26", "the Save task": "C26",
    "datasets could not be allocated": "C27", "transpose_blocks": "C27", "cpu_count": "C27", "available memory": "C27",
    "looking for strings": "C29", "allequal": "C31", "total_size": "C31", "Profiler": "C30", "channel profiles of a PFB": "C31",
    "no PBS job script": "C28", "required settings of PBS jobs": "C28", "default arguments of the run command": "C28", "an unknown queue system": "C28", "the default profiler of queued jobs": "C28", "the queue command had a default profiler": "C28", "pipeline templates could not be run": "C28", "virtual environments were not found": "C28", "profiling options were ignored for PBS": "C28", "PBS jobs kept the status": "C28", "job scripts failed for paths with spaces": "C28", "jobs that could not be set up": "C28", "finished jobs with a temporary directory": "C28", "failures to submit a job": "C28",
}
KNOWN = []
