# property id -> how its check is built and run
CHECKS = {
    "C01": dict(qscale=4, tscale=4, src="c01_tensor_io.cpp", technique="generated tensor sequences, round-trip through stream, mapped and named files"),
    "C02": dict(qscale=4, tscale=4, src="c02_compressed.cpp", technique="generated contents and run lengths, round-trip and uncompressed-versus-compressed differential"),
    "C03": dict(qscale=1, tscale=1, src="c03_tensor_ops.cpp", technique="stateful generation of operation histories against an array model"),
    "C04": dict(qscale=8, tscale=8, src="c04_math.cpp", variants=["main", "atlas"], technique="generated operands against double precision definitions, adjoint identity, two builds"),
    "C05": dict(qscale=2, tscale=2, src="c05_forward.cpp", variants=["main", "atlas"], technique="generated layer configurations and shapes against reference layers, two builds"),
    "C06": dict(qscale=6, tscale=6, src="c06_gradient.cpp", variants=["main", "atlas"], technique="generated layers and networks, delivered gradients against central differences of reference layers, two builds"),
    "C07": dict(qscale=2, tscale=2, src="c07_graph.cpp", technique="generated graphs against reference composition; metamorphic relations on node order, batches and repetition"),
    "C08": dict(qscale=2, tscale=2, src="c08_wiring.cpp", technique="generated valid and invalid wirings against acceptance rules, evaluated under sanitizers"),
    "C09": dict(qscale=1, tscale=1, src="c09_descriptors.cpp", technique="grammar-based generation and mutation of descriptors against an independent parser"),
    "C10": dict(qscale=4, tscale=3, src="c10_factory.cpp", technique="generated network descriptions against an independent interpreter of the format; patch/convolutional differential"),
    "C11": dict(qscale=6, tscale=4, src="c11_trainer.cpp", technique="stateful generation of training histories against a reference optimizer"),
    "C12": dict(qscale=15, tscale=10, src="c12_dataset_input.cpp", technique="stateful generation of training/testing histories against a delivery model"),
    "C13": dict(qscale=5, tscale=4, src="c13_stream_dataset.cpp", technique="generated image/label files and configurations against a model of the data set"),
    "C14": dict(qscale=6, tscale=4, src="c14_patch_dataset.cpp", technique="generated image sets, exhaustive comparison of every patch with a model"),
    "C15": dict(qscale=6, tscale=3, src="c15_images.cpp", asan="max_allocation_size_mb=6000", technique="generated and mutated image files against an encoder/decoder written for the check"),
    "C16": dict(qscale=4, tscale=3, src="c16_labels.cpp", technique="generated colours, label images and score maps against the documented mapping, round-trip"),
    "C17": dict(qscale=12, tscale=8, src="c17_metrics.cpp", technique="generated batches against exact recomputation of the metrics"),
    "C18": dict(qscale=8, tscale=4, src="c18_stats.cpp", technique="stateful generation of call histories against a model of the aggregator"),
    "C19": dict(qscale=4, tscale=3, src="c19_params.cpp", technique="generated networks, save/load round-trip and damaged files"),
    "C20": dict(qscale=6, tscale=8, src="c20_tools.cpp", tools=["makeTensorStream", "makeCompressedTensorStream", "compressTensorStream", "tensorStreamTool", "tensorTool", "classifyImage", "trainNetwork"], technique="generated files and scripts, the built programs run and compared with models of their transformation"),
    "C21": dict(qscale=6, tscale=4, src="c21_init.cpp", technique="generated layers and networks, range and distribution of the weights, metamorphic relations on seeds and modes"),
    "C22": dict(qscale=4, tscale=4, src="c22_device.cpp", device=True, technique="differential testing of the OpenCL builds against the CPU build on a simulated device, kernels against references"),
    "C23": dict(qscale=6, tscale=4, src="c23_training_report.cpp", technique="stateful generation of training, testing and recording histories against a model of every reported figure"),
    "C24": dict(qscale=4, tscale=4, src="c24_gradient_check.cpp", technique="generated networks with gradients that are wrong by a known ratio against the required verdict"),
    "C25": dict(qscale=4, tscale=4, src="c25_printed.cpp", tools=["tensorStreamStats", "trainNetwork"], technique="generated networks, tensors, settings and data sets; the printed text is parsed and compared with a model"),
    "C26": dict(qscale=1, tscale=1, src="c26_threads.cpp", variants=["omp"], technique="generated layers, networks, data sets and training runs by generated teams of threads against a single thread, under a race detector"),
    "C27": dict(qscale=2, tscale=2, src="c27_benchmark.cpp", repo=["tools/runBenchmark.cpp"], technique="generated network descriptions, the benchmark program run on a network that counts its passes"),
    "C28": dict(qscale=6, tscale=5, src="c28_incomplete.cpp", tools=["makeTensorStream", "makeCompressedTensorStream", "compressTensorStream", "tensorStreamTool", "tensorTool", "trainNetwork"], technique="fault injection: generated files cut at a generated byte and disks that are full after a generated number of bytes, against the rule that everything incomplete is reported and everything complete is delivered"),
    "C29": dict(qscale=6, tscale=5, src="c29_damaged.cpp", tools=["compressTensorStream", "tensorStreamTool", "tensorTool"], technique="fuzzing with structured mutations of tensor files, streams, compressed contents and models, against a decoder of the file formats written for the check, memory checked by sanitizers and a bound on allocations"),
    "C30": dict(qscale=4, tscale=4, src="c30_malformed.cpp", tools=["trainNetwork"], technique="fuzzing of network descriptions, data set configurations, file lists, parameters and training scripts with structured mutations, with oracles for the mistakes that have to be refused and for the values read, memory and undefined values checked by sanitizers and pattern-initialised variables"),
    "C31": dict(qscale=5, tscale=4, src="c31_independence.cpp", technique="stateful: generated interleavings of the operations of several networks, trainers, data sets, streams and tensors, each compared with the same operations by itself"),
}
NOT_APPLICABLE = {}
