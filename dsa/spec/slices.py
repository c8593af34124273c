"""slices and chunks as rows of the package's own full-frame correction"""
import numpy as np
import discorpy.post.postprocessing as post


def unwarp_slice_backward(mat3D, xcenter, ycenter, list_fact, index):
    if len(mat3D.shape) < 3:
        raise ValueError("3D")
    depth = mat3D.shape[0]
    return np.asarray([post.unwarp_image_backward(mat3D[i], xcenter, ycenter,
                                                  list_fact)[index]
                       for i in range(depth)])


def unwarp_chunk_slices_backward(mat3D, xcenter, ycenter, list_fact,
                                 start_index, stop_index):
    if len(mat3D.shape) < 3:
        raise ValueError("3D")
    depth, height, width = mat3D.shape
    if stop_index == -1:
        stop_index = height - 1
    if not (0 <= start_index < height) or not (0 <= stop_index < height):
        raise ValueError("range")
    return np.asarray([post.unwarp_image_backward(
        mat3D[i], xcenter, ycenter, list_fact)[start_index:stop_index + 1]
        for i in range(depth)])
