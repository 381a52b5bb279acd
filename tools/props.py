"""Writes properties.jsonl and MANIFEST.json (run by hand after changes)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PC = 'pylib/pc/'
OPS = PC + 'custom_ops/custom_ops_tf.py'
L = PC + 'layers/'
C = 'custom_ops/tfg_custom_ops/'


def P(id, title, statement, over, text, why, files, mech, level_note,
      technique, state=(), observe=()):
  return dict(id=id, title=title, statement=statement, over=over, text=text,
              why=why, files=files, mech=mech, level_note=level_note,
              technique=technique, state=list(state), observe=list(observe))


PROPS = [
  P('C01', 'Radius search returns exactly the points within the radius',
    'For every batch of point clouds, set of centers, per dimension radius and cell size at least as large as the radius, the neighbors reported for a center are exactly the points of the same batch element whose difference to the center, divided by the radii, has length below one, each reported once. This holds for anisotropic radii, negative coordinates, duplicate points, empty batch elements, centers outside the bounding box and any dimension from two on, and the search without a grid reports the same relation.',
    ['inputs', 'configurations'],
    'all batches, centers, radii and cell sizes (radius <= cell size)',
    'The tests compare random isotropic 2D/3D clouds in the unit cube with a brute force search on few configurations; borders of the grid, empty elements, cells larger than the radius and anisotropic radii never occur.',
    [PC + 'Neighborhood.py', OPS, PC + 'Grid.py'],
    [('cell location, scan of the nine adjacent columns, distance and batch test', OPS + ': find_neighbors_tf'),
     ('brute force variant', OPS + ': find_neighbors_no_grid')],
    'The scan design is model checked exhaustively on small batches; recorded searches of the real code on lattice inputs (special and random) are judged by the brute force definition in TLA+.',
    'TLA+ model of grid and scan (TLC exhaustive) + TLC validation of recorded searches'),
  P('C02', 'Neighborhood indices, ranges, id spaces and the neighbor cap agree',
    'In every neighborhood the pairs are grouped by center, the ranges delimit exactly the pairs of each center, ids in sorted and in input order denote the same points, and centers default to the points of the grid. With a limit on the number of neighbors each center gets as many of its true neighbors as exist, but never more than the limit.',
    ['inputs', 'configurations'],
    'all clouds, centers, radii and limits',
    'Tests look at neighbor sets of one center at a time and never at limits; ranges of empty neighborhoods and unsorted batches are not reached.',
    [PC + 'Neighborhood.py', OPS],
    [('ranges and pairs', OPS + ': find_neighbors_tf'), ('translation of ids', PC + 'Neighborhood.py: Neighborhood.__init__, compute_neighborhoods')],
    'Every recorded neighborhood is checked completely against the TLA+ definition of its bookkeeping.',
    'TLC validation of recorded neighborhoods against the TLA+ bookkeeping contract'),
  P('C03', 'Grid cells: keys identify batch element and cell, sorted descending',
    'For every cloud, cell size and bounding box, each point gets the key of its batch element and grid cell, counted from the lower corner of the box of its element and clipped to the grid; keys of different elements or cells never collide. The sorted view is a permutation of the input in descending key order which keeps coordinates and batch ids attached to their points.',
    ['inputs', 'configurations'],
    'all clouds, cell sizes and boxes, dimensions 2 to 5',
    'The tests recompute the keys with the same formula on random clouds and never hit the upper border, explicit boxes or empty elements.',
    [PC + 'Grid.py', OPS],
    [('key computation', OPS + ': compute_keys_tf'), ('cell counts and sorting', PC + 'Grid.py: Grid.__init__')],
    'Key design model checked (range, injectivity, separation of batches); recorded grids judged exactly.',
    'TLA+ model of keys (TLC exhaustive) + TLC validation of recorded grids'),
  P('C04', 'The 2D cell index partitions the sorted points',
    'The fast access structure of a grid lists, for each batch element and each cell of the first two dimensions, the half open range holding exactly the sorted points of that column. The ranges of nonempty columns partition all points, empty columns have empty ranges, and asking again gives the same answer.',
    ['inputs', 'configurations'],
    'all clouds and cell sizes, dimensions 2 to 5, including empty columns and elements',
    'Tests check the structure only for dense random clouds.',
    [OPS, PC + 'Grid.py'],
    [('segment minima/maxima per column', OPS + ': build_grid_ds_tf'), ('lazy construction', PC + 'Grid.py: Grid.get_DS')],
    'Partition property model checked; recorded structures compared range by range.',
    'TLA+ model (TLC exhaustive) + TLC validation of recorded data structures'),
  P('C05', 'Poisson disk sampling is a maximal separated subset of the cloud',
    'Every sample of a Poisson disk sampling is a point of the input, with its own coordinates and batch element, no two samples of an element are closer than the radius, and every input point is within the radius of a sample of its element. Returned ids refer to the points in input order and match the returned samples.',
    ['inputs', 'schedules', 'configurations'],
    'all clouds and radii, every random choice of the sampling order',
    'Tests check only the minimum distance for a few random clouds; coverage, membership and ids are unchecked, and the order of choices is random.',
    [PC + 'sampling.py', OPS],
    [('random choice and exclusion of neighbors', OPS + ': sampling_tf'), ('id translation', PC + 'sampling.py')],
    'The greedy process is model checked over every choice order on small clouds; recorded samplings are judged as maximal independent sets, and their order as an allowed behaviour.',
    'TLA+ process model over all choice orders (TLC) + TLC validation of recorded samplings'),
  P('C06', 'Cell average sampling: one exact mean per occupied cell',
    'Cell average sampling returns exactly one sample for every occupied grid cell of every batch element, whose coordinates are the mean of the points in that cell and whose batch element is theirs. It gives the same samples whether cell sizes or a grid are passed.',
    ['inputs', 'configurations'],
    'all clouds and cell sizes, grids with own cell sizes',
    'Tests use one random configuration family and compare with a reimplementation for a single path.',
    [PC + 'sampling.py', OPS],
    [('segment means over keys', OPS + ': sampling_tf'), ('entry points', PC + 'sampling.py: cell_average_sampling, sample')],
    'Recorded samplings are compared with the exact rational cell means defined in TLA+.',
    'TLC validation of recorded samplings against the TLA+ cell partition'),
  P('C07', 'Kernel density estimates match the Gaussian definition per point',
    'The estimated density of a point is the sum, over its neighbors within the radius in the same batch element, of the product over the dimensions of the Gaussian kernel of the scaled difference, and every neighbor pair carries the density of its neighbor point, also if the neighborhood is limited to a number of neighbors. Densities of a whole cloud come in the order of its points, and gradients through the densities are their derivatives with respect to the coordinates of the points.',
    ['inputs', 'configurations'],
    'all clouds, bandwidths, radii and batch layouts',
    'The tests compare single batches with an isotropic bandwidth with scikit-learn; anisotropic bandwidths, several elements and the order of the points are not covered.',
    [PC + 'Neighborhood.py', OPS],
    [('kernel sums', OPS + ': compute_pdf_tf, compute_pdf_inside_neighborhoods_tf'), ('reordering', PC + 'Neighborhood.py: density_estimation')],
    'Dyadic bandwidths make the Gaussian sums sums of powers of two, which TLA+ evaluates with integers.',
    'TLC validation of recorded densities against an exact (dyadic) TLA+ density'),
  P('C08', 'Densities of a neighborhood: modes, normalisation and recomputation',
    'A neighborhood computes its densities on first request with the options given then and keeps them until they are computed anew; without a density all values are one, and normalisation divides by the number of neighbors of the center. Whatever calls came before, the values are those of the last computation.',
    ['histories', 'configurations'],
    'all sequences of requests and computations with all options',
    'Tests call the computation once per object.',
    [PC + 'Neighborhood.py'],
    [('cached densities', PC + 'Neighborhood.py: Neighborhood.compute_pdf, get_pdf')],
    'The object is a TLA+ state machine; its behaviours are generated by TLC, replayed on the real object and validated step by step.',
    'TLA+ state machine, TLC generated histories replayed and validated'),
  P('C09', 'Padded, sized and batch id inputs describe the same point clouds',
    'A batch of point clouds given as a padded array, with or without sizes, as flat points with sizes, or as flat points with batch ids in any order, is represented without loss: points, batch membership and sizes are those given. Reading it back padded gives every element in order followed by zeros, reading one element gives its points in order, and flattening undoes unflattening.',
    ['inputs', 'configurations'],
    'all representations, sizes (including empty elements), batch shapes and orders',
    'Tests construct a few random batches without empty elements and compare sums.',
    [PC + 'PointCloud.py'],
    [('construction', PC + 'PointCloud.py: PointCloud.__init__, _init_from_padded, _init_from_segmented'), ('reading', PC + 'PointCloud.py: get_points, get_sizes, get_unflatten')],
    'Constructions are judged by the TLA+ functions mapping each representation to the abstract cloud.',
    'TLC validation of recorded constructions and reads against the abstract cloud in TLA+'),
  P('C10', 'Reading a point cloud never depends on the calls made before',
    'What a point cloud returns for sizes, points, bounding box and layout conversions is determined by its content and the batch shape in force, not by which of these were asked before or in which order the shape was changed. A rejected change of the batch shape has no effect.',
    ['histories'],
    'all call sequences over reading, conversion and batch shape changes',
    'Tests make one call per object, while derived data are cached inside the object.',
    [PC + 'PointCloud.py'],
    [('lazily computed sizes, unflatten method, bounding box', PC + 'PointCloud.py'), ('reset on shape changes', PC + 'PointCloud.py: set_batch_shape')],
    'The caching object is model checked over all call sequences; TLC generated call sequences are replayed on real objects and every answer is validated against the abstract state.',
    'TLA+ state machine of the caches (TLC exhaustive), generated histories replayed and validated',
    state=[('cached layout', 'sizes, unflatten method and box derived on demand', PC + 'PointCloud.py')]),
  P('C11', 'Bounding boxes and diameters are exact per batch element',
    'The axis aligned bounding box of every nonempty batch element has the minimum and maximum of its points in each dimension, unaffected by other elements. Its diameter is the norm of its extent for the requested order, arranged in the batch shape.',
    ['inputs', 'configurations'],
    'all clouds, batch shapes and norms 1, 2, 3 and infinity',
    'Tests use sorted nonempty batches of uniform size.',
    [PC + 'PointCloud.py'],
    [('segment minima and maxima, norms', PC + 'PointCloud.py: _AABB')],
    'Recorded boxes are compared with the TLA+ definition; roots are compared by their powers.',
    'TLC validation of recorded boxes against the TLA+ definition'),
  P('C12', 'Invalid input is rejected and leaves existing objects unchanged',
    'Points without segmentation, one dimensional points, batch ids of the wrong length, batch shapes that do not match the batch size, element ids outside the batch, missing or unknown sampling options, superfluous cell sizes and features of the wrong length raise an error of the documented kind. After the error every object involved shows exactly what it showed before.',
    ['inputs', 'histories'],
    'all invalid arguments of the listed kinds, at any point of a history',
    'Tests cover a few constructor errors and never look at the object afterwards.',
    [PC + 'PointCloud.py', PC + 'utils.py', PC + 'sampling.py', PC + 'PointHierarchy.py'],
    [('argument checks', PC + 'utils.py: check_valid_point_cloud_input'), ('shape check before change', PC + 'PointCloud.py: set_batch_shape')],
    'Rejections inside histories are actions of the TLA+ state machine that must not change its state.',
    'TLA+ state machine with rejected calls, TLC validation of recorded rejections'),
  P('C13', 'Feature layouts: every feature stays with its point',
    'Features in padded layout are flattened so that each row belongs to the point in the same position of its batch element, whatever the order of the batch ids; flat features are kept as they are. Unflattening and flattening again returns the same rows, and features of the wrong length are rejected.',
    ['inputs', 'configurations'],
    'all clouds, batch orders, paddings and feature widths',
    'Tests cover sorted batches only, where a wrong permutation is invisible.',
    [PC + 'utils.py', PC + 'PointCloud.py'],
    [('inverse permutation', PC + 'utils.py: _flatten_features'), ('sorting by batch', PC + 'PointCloud.py: get_unflatten')],
    'Recorded conversions are judged by the abstract assignment of rows to points.',
    'TLC validation of recorded layout conversions against the abstract cloud in TLA+'),
  P('C14', 'Global pooling reduces each batch element separately',
    'Global max and average pooling return, for each batch element and each feature, the maximum or mean over exactly the points of that element, independent of point order and of other elements. The result has one row per element or, on request, the batch shape.',
    ['inputs', 'configurations'],
    'all clouds, batch orders, shapes and feature layouts',
    'Tests use sorted batches with random features and one layout each.',
    [L + 'Pooling.py'],
    [('segment reductions', L + 'Pooling.py: GlobalMaxPooling, GlobalAveragePooling')],
    'Recorded poolings compared with the exact maxima and rational means.',
    'TLC validation of recorded poolings against the TLA+ definition'),
  P('C15', 'Local pooling reduces the neighborhood of each output point',
    'Local max and average pooling return for each output point with at least one neighbor the maximum or mean of the features of exactly the input points within the radius and the same batch element, in the order of the output points. Features may be flat or padded, results are flat or padded on request.',
    ['inputs', 'configurations'],
    'all input and output clouds, radii and feature layouts',
    'Tests compare one random configuration family without batch permutations.',
    [L + 'Pooling.py', PC + 'Neighborhood.py'],
    [('neighborhood reductions', L + 'Pooling.py: _LocalPointPooling')],
    'Recorded poolings compared with the definition over the brute force neighborhood.',
    'TLC validation of recorded poolings against the TLA+ definition'),
  P('C16', 'Monte Carlo convolution computes its defining sum',
    'For each output point the Monte Carlo convolution returns the sum over its neighbors of the input features weighted by the kernel evaluated at the scaled relative position and divided by the density, plus nothing else; points without neighbors contribute zero. The result does not depend on how points are ordered or padded.',
    ['inputs', 'configurations'],
    'all clouds, kernels, feature sizes and neighborhoods',
    'Tests compare a vectorised reimplementation on one family of clouds in which input and output order coincide.',
    [L + 'MCConv.py', OPS],
    [('kernel perceptrons and projection', L + 'MCConv.py: MCConv'), ('aggregation', OPS + ': basis_proj_tf')],
    'Integer weights make the convolution exact; the sum is evaluated in TLA+.',
    'TLC validation of recorded convolutions with integer weights against the TLA+ sum'),
  P('C17', 'PointConv computes its defining sum with density compensation',
    'For each output point the convolution returns the sum over its neighbors of the features weighted by the kernel at the relative position and divided by the learned transform of the density relative to the largest in the neighborhood. The result does not depend on how points are ordered or padded.',
    ['inputs', 'configurations'],
    'all clouds, kernels and feature sizes',
    'Tests reimplement the layer for coinciding orders and random data.',
    [L + 'PointConv.py', OPS],
    [('kernel and density networks', L + 'PointConv.py: PointConv'), ('aggregation', OPS + ': basis_proj_tf')],
    'Integer weights make the convolution exact; the sum is evaluated in TLA+.',
    'TLC validation of recorded convolutions with integer weights against the TLA+ sum'),
  P('C18', 'Kernel point convolution computes its defining sum',
    'For each output point the kernel point convolution returns the sum over its neighbors and kernel points of the features times the kernel weight times the correlation, which is the linear or Gaussian function of the distance between relative position and kernel point. Offsets of deformable kernels move the kernel points of each output point by the result of the offset convolution.',
    ['inputs', 'configurations'],
    'all clouds, kernel points, correlation types, rigid and deformable kernels',
    'Tests cover rigid kernels on one family of clouds; deformable kernels are only executed.',
    [L + 'KPConv.py', L + 'utils.py'],
    [('kernel point correlations', L + 'utils.py: linear_weighting, gaussian_weighting, identity'), ('convolution', L + 'KPConv.py: KPConv')],
    'Integer kernels and lattice distances; correlations are compared as powers of two or integer roots.',
    'TLC validation of recorded convolutions against the TLA+ sum'),
  P('C19', 'Regularisation of deformable kernels is fitting plus repulsion',
    'The regularisation of a deformable kernel point convolution is the sum of the squared distances of every kernel point to its closest neighbor, relative to the influence distance, and of the repulsion of all pairs of kernel points closer than the influence distance. Every point counts alike, whatever batch element it belongs to; points without neighbors have nothing to fit.',
    ['inputs', 'configurations'],
    'all neighborhoods and kernel offsets',
    'No test evaluates the regularisation against values.',
    [L + 'KPConv.py'],
    [('regularisation', L + 'KPConv.py: KPConv.regularizer, _regularizer')],
    'Recorded values compared with the TLA+ definition on lattice configurations.',
    'TLC validation of recorded regularisers against the TLA+ definition'),
  P('C20', 'One by one convolution is a per point linear map',
    'A one by one convolution maps the feature vector of every point by the same matrix and bias, and returns rows in the order of the points or in padded layout on request. It accepts flat and padded features alike.',
    ['inputs', 'configurations'],
    'all clouds, feature sizes, layouts and bias settings',
    'No test covers the layer.',
    [L + 'Conv1x1.py'],
    [('dense layer', L + 'Conv1x1.py: Conv1x1')],
    'Integer weights make the map exact.',
    'TLC validation of recorded layers against the TLA+ definition'),
  P('C21', 'Batch elements are independent and point order is irrelevant',
    'Processing clouds in one batch gives for every element the same result as processing it alone (up to grid cells of points exactly on the upper border of a box), and permuting the points of a batch permutes neighborhoods, densities, convolutions and poolings accordingly. Translating or relabelling batch elements changes nothing else.',
    ['inputs', 'configurations'],
    'all batches and permutations; searches, densities, sampling by cells, convolutions, poolings',
    'No test compares two runs of the library with each other.',
    [PC + 'Neighborhood.py', PC + 'Grid.py', L + 'MCConv.py', L + 'Pooling.py'],
    [('batch ids carried through every stage', PC + 'Grid.py; ' + OPS)],
    'Pairs of recorded runs are related by the TLA+ equivariance relation.',
    'TLC validation of pairs of recorded runs against a relational TLA+ specification'),
  P('C22', 'Point hierarchies are chains of samplings of the level above',
    'Every level of a point hierarchy is a sampling of the level above with the given mode and cell sizes, all levels keep batch size and batch shape, and the neighborhood between two levels relates each point of the lower level to the points of the upper level within the cell size. Scalar and per dimension cell sizes are accepted, the last given size counts for all remaining dimensions, and levels, sizes and points are reported consistently.',
    ['inputs', 'configurations', 'histories'],
    'all clouds, numbers of levels, cell sizes and sampling modes',
    'Tests do not cover hierarchies.',
    [PC + 'PointHierarchy.py', PC + 'sampling.py'],
    [('level construction', PC + 'PointHierarchy.py: PointHierarchy.__init__')],
    'Each recorded level transition must be an action of the TLA+ hierarchy machine.',
    'TLA+ level machine, TLC validation of recorded hierarchies'),
  P('C23', 'Transposing a neighborhood swaps centers and neighbors',
    'The transposed neighborhood contains the pair of a and b exactly if the neighborhood contains the pair of b and a, with valid ranges and ids, for every way of transposing, also for neighborhoods limited to a number of neighbors. Transposing a neighborhood of a cloud with itself gives the same relation, and transposing twice gives the original relation.',
    ['inputs', 'configurations'],
    'all clouds, centers and radii',
    'Tests do not transpose.',
    [PC + 'Neighborhood.py'],
    [('recomputation', PC + 'Neighborhood.py: Neighborhood.transpose'), ('reordering', PC + 'Neighborhood.py: _NeighborhoodTransposed')],
    'Recorded pairs of neighborhoods are compared as relations.',
    'TLC validation of recorded transpositions against the TLA+ converse relation'),
  P('C24', 'Residual networks compose their layers as specified',
    'A residual network applies, block by block, normalisation, activation and convolution, adds the input of the block, projected if the width changes, and for bottlenecks contracts and expands the features around the convolution; the projection block samples down. All convolution types can be used, and the output has the requested width for every point in order.',
    ['inputs', 'configurations'],
    'all block counts, widths and convolution types',
    'Tests do not cover the blocks.',
    [L + 'network_blocks.py'],
    [('blocks', L + 'network_blocks.py: PointResNet, PointResNetBottleNeck, PointResNetSpatialBottleNeck')],
    'The recorded values of every layer inside a network are validated against the composition machine in TLA+.',
    'TLA+ dataflow of the blocks, TLC validation of recorded layer inputs and outputs'),
  P('C25', 'Loading ASCII points returns what the file contains',
    'Loading a point file returns the rows of the file in order, split into coordinates and features at the point dimension, up to the requested number of points, for every delimiter, number of columns and with or without a final newline.',
    ['inputs', 'configurations'],
    'all files, delimiters, dimensions and limits',
    'Tests do not cover input and output.',
    ['pylib/io/points.py'],
    [('parsing', 'pylib/io/points.py: load_points_from_file')],
    'Recorded loads compared with the abstract file content.',
    'TLC validation of recorded loads against the TLA+ file content'),
  P('C26', 'Batch loading pads every file to its own slot',
    'Loading several files into one batch puts the content of each file into the corresponding row in order, zero padded, and reports the true sizes, so that a point cloud built from both has exactly the points of the files. The same holds for vertices of meshes.',
    ['inputs', 'configurations'],
    'all lists of files of different lengths, limits and batch shapes',
    'Tests do not cover input and output.',
    ['pylib/io/points.py'],
    [('padding and sizes', 'pylib/io/points.py: load_batch_of_points, load_batch_of_meshes, _pad')],
    'Recorded batches compared with the abstract file contents.',
    'TLC validation of recorded batches against the TLA+ file content'),
  P('C27', 'Kernel point templates are regular; rotations preserve geometry',
    'The kernel point templates consist of a center point followed by distinct points of the documented polygons or polyhedra on the documented radii. Random rotations of points preserve all distances and orientation, and are applied to every point of an element alike.',
    ['inputs', 'configurations'],
    'all templates and every random rotation drawn',
    'Tests only use one template implicitly.',
    [L + 'utils.py'],
    [('templates', L + 'utils.py: hexagon, icosahedron, ...'), ('rotation', L + 'utils.py: random_rotation')],
    'Gram matrices of recorded templates compared with the exact ones of the regular bodies in TLA+.',
    'TLC validation of recorded templates and rotations against TLA+ Gram relations'),
  P('C28', 'Generators and training scripts visit every model exactly once per epoch',
    'The data generators of the classification scripts deliver in one epoch every model exactly once, or once up to the remainder when the last batch would be incomplete, with label, points and features belonging together, the configured number of points for each model and augmentation only as a scaling between 0.9 and 1.1. on_epoch_end starts a new epoch in which every order of the models is possible. The scripts load each listed model with the index of its category, from the files as well as from the cache, and their training loops alternate complete training epochs, in a new order each, with complete validation epochs, update the weights only in training and report the accuracy of the epoch.',
    ['histories', 'schedules', 'configurations'],
    'all numbers of models, batch sizes, access histories and every shuffling order',
    'The scripts have no tests.',
    ['modelnet40.py', 'modelnet40_small.py'],
    [('shuffled order and epoch end', 'modelnet40.py: modelnet_data_generator'), ('loading and training loop', 'modelnet40.py, modelnet40_small.py: top level, training')],
    'The generator is a TLA+ state machine explored over all orders; recorded lives of the generators and complete training runs of the scripts (with a stand-in for the network) are replayed on it.',
    'TLA+ state machine (TLC exhaustive), TLC validation of recorded generator lives and training runs'),
  P('C29', 'Feature gradients are the adjoint of the layers',
    'The gradient of every linear point layer with respect to its input features is the transpose of its forward map: the coefficient of an input feature in the gradient of an output equals the weight with which that feature enters the output. No gradient leaks between batch elements or to points outside the neighborhood.',
    ['inputs', 'configurations'],
    'all clouds and kernels; convolutions and poolings',
    'The gradient tests time out or compare numerically on single batches.',
    [L + 'MCConv.py', L + 'PointConv.py', L + 'KPConv.py', OPS],
    [('differentiable aggregation', OPS + ': basis_proj_tf')],
    'Recorded forward maps and gradients are compared as matrices.',
    'TLC validation of recorded gradients against the TLA+ adjoint relation'),
  P('C30', 'Basis projection aggregates basis times features per center',
    'The projection of features on a neighborhood basis gives, for each center, feature and basis function, the sum over the neighbors of the center of basis value times feature value, and zero for centers without neighbors.',
    ['inputs', 'configurations'],
    'all neighborhoods, feature and basis sizes',
    'The tests compare with random data for dense neighborhoods and tolerate errors.',
    [OPS],
    [('segment sum of outer products', OPS + ': basis_proj_tf')],
    'Integer bases and features make the sum exact.',
    'TLC validation of recorded projections against the TLA+ sum'),
  P('C31', 'Traced functions give the answers of eager execution',
    'Point clouds, grids, neighborhoods, samplings, hierarchies and layers can be created and asked inside of traced functions (tf.function), with or without autograph and for inputs of unknown sizes, and give the answers they give in eager execution. Calling a traced function again with other inputs answers for those inputs. Objects created outside may be asked inside of several traced functions and eagerly, in any order, without changing any answer.',
    ['inputs', 'histories', 'configurations'],
    'all inputs, signatures, and orders of creating, asking, tracing and calling again',
    'Tests run eagerly; caches filled while tracing only fail in a later call from somewhere else.',
    [PC + 'PointCloud.py', PC + 'Grid.py', PC + 'Neighborhood.py', PC + 'utils.py', PC + 'sampling.py', OPS, L + 'MCConv.py', L + 'network_blocks.py'],
    [('values kept in the graph they belong to', PC + 'utils.py: is_in_current_graph'), ('lazily computed values', PC + 'PointCloud.py: get_sizes, get_AABB; ' + PC + 'Grid.py: get_DS; ' + PC + 'Neighborhood.py: get_pdf, transpose'), ('vectorised search and sampling loops', OPS + ': find_neighbors_tf; ' + OPS + ': sampling_tf')],
    'The life of objects and traces is a state machine checked exhaustively; its simulated histories are replayed on the real classes and each answer is compared in TLA+ with the answer of a new eager object for the input the machine says it belongs to.',
    'TLA+ state machine of traces and caches (TLC exhaustive), generated histories replayed, answers validated by TLC'),
  P('C32', 'The classification networks judge every shape on its own',
    'Without training, the networks of the scripts return one row of class scores per shape, which depends on nothing but the points of the shape and the parameters: not on the other shapes of the batch, its position in the batch, the order of its points, padding, a translation, earlier calls, or whether the call is traced or eager. Such calls change no parameter or statistic. Training steps reach every parameter.',
    ['inputs', 'histories', 'configurations'],
    'all shapes, batches, types of convolution and histories of inference and training',
    'The tests do not touch the scripts; a row which depends on its batch still trains.',
    ['modelnet40.py', 'modelnet40_small.py', PC + 'PointHierarchy.py', L + 'Pooling.py'],
    [('network', 'modelnet40.py: mymodel, conv_block; modelnet40_small.py: mymodel'), ('padding and sizes', PC + 'PointCloud.py')],
    'The use of a network is a state machine whose rows are functions of version and shape; simulated histories are replayed on the real networks and all recorded rows are compared in TLA+.',
    'TLA+ state machine of inference and training (TLC exhaustive), generated histories replayed, rows validated by TLC'),
  P('C33', 'Blocks and stages of the classification networks compose as specified',
    'A residual block of the classification network adds two paths: normalisation, leaky rectification and layer through a quarter of its width (one by one, convolution, one by one), and its input, max pooled if the points change and projected (normalised and rectified before) if the width changes. The networks run their stages in order, every layer on the levels of the hierarchy and with the radius given for it, and end with the pooled or sorted features of the last level and the classification head.',
    ['inputs', 'configurations'],
    'all shapes, widths, levels and types of convolution',
    'The tests do not touch the scripts; a missing activation or another level still trains.',
    ['modelnet40.py', 'modelnet40_small.py'],
    [('block', 'modelnet40.py: conv_block'), ('stages', 'modelnet40.py: mymodel.__call__; modelnet40_small.py: mymodel.__call__')],
    'Both paths are a machine on a toy checked exhaustively in every interleaving; recorded inputs and outputs of all layers in the real blocks and networks are validated against the dataflow in TLA+.',
    'TLA+ dataflow of blocks and stages (TLC exhaustive on a toy), TLC validation of recorded layer inputs and outputs'),
  P('C34', 'The CUDA grid and search operations satisfy the same contracts',
    'For inputs of two to six dimensions the CUDA operations ComputeKeys, BuildGridDs and FindNeighbors satisfy the contracts of grids and neighborhoods: keys identify element and cell, the access structure lists exactly the sorted points of each column, and a search reports exactly the true pairs of each center once, grouped by center, or with a limit as many true neighbors as exist but never more than the limit, drawn at random so that every neighbor can be kept and every one can be dropped. This holds for every order in which the threads of the device run and for every number of blocks.',
    ['inputs', 'schedules', 'configurations'],
    'all clouds, centers, radii, cells and limits; all interleavings of threads and sizes of the device',
    'The CUDA operations cannot be built or run where the tests run; the tests only reach the TensorFlow fallback.',
    [C + 'find_neighbors/cc/ops/find_neighbors_ops.cpp', C + 'compute_keys/cc/ops/compute_keys_ops.cpp',
     C + 'build_grid_ds/cc/ops/build_grid_ds_ops.cpp', PC + 'custom_ops/custom_ops_wrapper.py'],
    [('ranges of points near a center, counting, scan and storing of neighbors', C + 'find_neighbors/cc/kernels/*.cu.cc'),
     ('keys', C + 'compute_keys/cc/kernels/compute_keys_kernels.cu.cc'),
     ('access structure', C + 'build_grid_ds/cc/kernels/build_grid_ds_kernels.cu.cc'),
     ('arguments of the operations', PC + 'custom_ops/custom_ops_wrapper.py')],
    'Range search, parallel scan and storing of neighbors are model checked in all interleavings; the real kernels are compiled for the processor, run by an emulator under several schedules below the unchanged library, and judged by the TLA+ contracts of grids and neighborhoods.',
    'TLA+ models of range search, scan and storing (TLC exhaustive), TLC validation of recorded runs of the emulated CUDA kernels'),
  P('C35', 'The CUDA sampling operation satisfies the contracts of sampling',
    'For inputs of two to six dimensions the CUDA operation Sampling and the classes on top of it satisfy the contracts of sampling: a Poisson disk sampling is a maximal separated subset of the points of each element, a cell average sampling has one sample per nonempty cell of an element with the mean of points of that cell and the index of one of them, and hierarchies keep their batch structure. This holds for every order in which the threads of the device run.',
    ['inputs', 'schedules', 'configurations'],
    'all clouds, radii and cells; all interleavings of threads',
    'The CUDA operation cannot be built or run where the tests run.',
    [C + 'sampling/cc/ops/sampling_ops.cpp', PC + 'custom_ops/custom_ops_wrapper.py', PC + 'sampling.py'],
    [('launches over groups of cells', C + 'sampling/cc/kernels/count_sampling_pd_kernels.cu.cc'),
     ('means of cells', C + 'sampling/cc/kernels/sampling_avg_kernels.cu.cc'),
     ('unique keys and counting', C + 'sampling/cc/kernels/store_unique_keys_kernels.cu.cc')],
    'The sampling in groups of cells is model checked in all interleavings; recorded runs of the emulated kernels are judged by the TLA+ contract of sampling.',
    'TLA+ model of parallel Poisson sampling (TLC exhaustive), TLC validation of recorded runs of the emulated CUDA kernels'),
  P('C36', 'CUDA densities, projections and gradients satisfy the same contracts',
    'For inputs of two to six dimensions, 8, 16, 32 or 64 basis functions and less than eight features or a multiple of eight, the CUDA operations ComputePdf and BasisProj and their gradients, and the densities and convolution layers computed with them, satisfy the contracts of the fallback: kernel density estimation over the neighbors of each point, sums of outer products of features and weights over the neighbors of each center, and gradients that are the derivatives of these functions.',
    ['inputs', 'schedules', 'configurations'],
    'all neighborhoods, features, weights and bandwidths; all interleavings of threads',
    'The CUDA operations cannot be built or run where the tests run; the gradients are separate kernels.',
    [C + 'compute_pdf/cc/ops/compute_pdf_ops.cpp', C + 'basis_proj/cc/ops/basis_proj_ops.cpp',
     PC + 'custom_ops/custom_ops_wrapper.py'],
    [('densities and gradients', C + 'compute_pdf/cc/kernels/*.cu.cc'),
     ('projection and gradients', C + 'basis_proj/cc/kernels/*.cu.cc'),
     ('registration of gradients', PC + 'custom_ops/custom_ops_wrapper.py')],
    'Recorded densities, projections, layers and gradients computed by the emulated kernels are judged by the TLA+ definitions used for the fallback.',
    'TLA+ model of neighborhood aggregation (TLC exhaustive), TLC validation of recorded runs of the emulated CUDA kernels'),
  P('C37', 'CUDA operations stay in their memory and do not depend on the schedule',
    'Every CUDA operation, on every input, reads and writes only memory of its own tensors, accesses words shared by several threads only atomically or separated by a barrier or launch, fills its outputs completely in the announced shape, and refuses arguments whose shapes do not fit. Inputs without points, centers or neighbors give empty or zero results. The result of a call up to order is the same for every order in which the threads run and every size of the device.',
    ['inputs', 'schedules', 'configurations'],
    'all inputs, also degenerate or inconsistent ones; all interleavings of threads and sizes of the device',
    'The CUDA operations cannot be built or run where the tests run, and races or stray accesses rarely show in results.',
    [C + 'find_neighbors/cc/ops/find_neighbors_ops.cpp', C + 'basis_proj/cc/ops/basis_proj_ops.cpp',
     C + 'compute_pdf/cc/ops/compute_pdf_ops.cpp', C + 'sampling/cc/ops/sampling_ops.cpp',
     C + 'compute_keys/cc/ops/compute_keys_ops.cpp', C + 'build_grid_ds/cc/ops/build_grid_ds_ops.cpp'],
    [('launches and shared memory', C + '*/cc/kernels/*.cu.cc'),
     ('requirements and allocations', C + '*/cc/ops/*_ops.cpp')],
    'Barriers, atomics and launches are model checked in all interleavings; the emulator records which threads touched which words under several schedules, and TLC judges races, bounds, shapes, refusals and agreement.',
    'TLA+ models of the parallel algorithms (TLC exhaustive), TLC validation of recorded memory accesses of the emulated CUDA kernels'),
  P('C38', 'Layers and networks can be trained: their gradients are derivatives',
    'Back propagation through every layer (MCConv, PointConv, KPConv also deformable and its regularization loss, Conv1x1, local and global poolings), the residual blocks and the density estimation returns, for every trainable weight, the input features and the coordinates of points and centers they depend on, the derivative of the result (at a kink a value between the one sided derivatives). All gradients are finite, also where kernel points coincide with neighbors, and all weights of a layer are trainable.',
    ['inputs', 'configurations'],
    'all clouds, features, weights, layer configurations and directions',
    'Tests train nothing; a detached, doubled or not finite gradient only shows as a network which learns badly, on inputs no test has.',
    [L + 'MCConv.py', L + 'PointConv.py', L + 'KPConv.py', L + 'Conv1x1.py', L + 'Pooling.py',
     L + 'network_blocks.py', PC + 'custom_ops/custom_ops_tf.py', PC + 'Neighborhood.py'],
    [('weights and convolutions', L + 'KPConv.py'), ('projection', PC + 'custom_ops/custom_ops_tf.py:basis_proj_tf'),
     ('densities', PC + 'Neighborhood.py:density_estimation')],
    'Back propagation over the pairs of points and centers in any order is model checked against differences of the loss; recorded gradients of the real layers are judged against recorded one sided difference quotients of three step sizes.',
    'TLA+ model of back propagation (TLC exhaustive), TLC validation of recorded gradients and difference quotients'),
]


def main():
  sys.path.insert(0, os.path.join(V, 'harness'))
  built = set(open(os.path.join(V, 'tools', 'built.txt')).read().split())
  na = {}
  f = os.path.join(V, 'tools', 'not_applicable.json')
  if os.path.exists(f):
    na = json.load(open(f))
  with open(os.path.join(V, 'properties.jsonl'), 'w') as out:
    for p in PROPS:
      assert len(p['title']) <= 80, p['id']
      d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
           'quantifier': {'over': p['over'], 'text': p['text']},
           'why_tests_cant': p['why'],
           'anchors': {'files': p['files'],
                       'mechanism': [{'name': a, 'where': b}
                                     for a, b in p['mech']],
                       'hook_needed': None}}
      if p['state']:
        d['anchors']['state'] = [
            {'name': a, 'meaning': b, 'where': w} for a, b, w in p['state']]
      out.write(json.dumps(d) + '\n')
  man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [],
         'not_applicable': [],
         'notes': 'All checks use TLA+ with TLC. No hooks in /repo are needed.'}
  for p in PROPS:
    if p['id'] in built:
      man['checks'].append({
          'property': p['id'],
          'quick_cmd': 'bash run.sh %s' % p['id'],
          'thorough_cmd': 'VERIF_TIER=thorough bash run.sh %s' % p['id'],
          'technique': p['technique'], 'level': 'model_checking',
          'level_note': p['level_note'] +
          ' Trusted: TLC, the recording harness, lattice inputs as '
          'representatives of real inputs.'})
    else:
      man['not_applicable'].append({
          'property': p['id'],
          'reason': na.get(p['id'], 'Check not built yet.')})
  with open(os.path.join(V, 'MANIFEST.json'), 'w') as out:
    json.dump(man, out, indent=1)
    out.write('\n')


main()
