import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
ELEM=["nnj/linear.py","nnj/conv2d.py","nnj/maxpool2d.py","nnj/upsample.py","nnj/l2norm.py","nnj/flatten.py","nnj/reshape.py","nnj/relu.py","nnj/sigmoid.py","nnj/sinusoidal.py","nnj/softplus.py","nnj/tanh.py","nnj/truncexp.py"]
BASE=["nnj/abstract_jacobian.py","nnj/abstract_diagonal_jacobian.py"]
p("C01","Input Jacobian is the exact derivative of the forward map",
 "For every elementary layer (Linear, Conv2d, MaxPool2d, Upsample, L2Norm, Flatten, Reshape, ReLU, Sigmoid, Sinusoidal, Softplus, Tanh, TruncExp) in every configuration its constructor accepts, jacobian(x, wrt=\"input\") returns, for each sample of the batch, the matrix of partial derivatives of the flattened output with respect to the flattened input, as autograd would compute it through the layer's own forward pass. Row and column order is the row-major flattening of output and input, and no sample's Jacobian depends on another sample.",
 ["inputs","configurations"],"all batch sizes, all feature/channel/spatial sizes, all kernel sizes and paddings, all constructor options (bias, eps, beta, threshold, stride of pooling, ...), all real inputs and weights (real arithmetic)",
 "tests compare 13 layers with autograd at one batch size, one shape per rank and default options (eps=1e-6, threshold=20, square non-overlapping pooling) on random data with atol 1e-4",
 ELEM,[("closed-form diagonal derivative of each activation","nnj/{relu,sigmoid,tanh,softplus,sinusoidal,truncexp}.py:jacobian"),("weight matrix broadcast over the batch","nnj/linear.py:jacobian"),("product of the identity with the transposed convolution","nnj/conv2d.py:jacobian/mjp"),("arg-max index gather","nnj/maxpool2d.py:jmp"),("block-sum convolution","nnj/upsample.py:mjp"),("(I - n n^T)/(|x|+eps)","nnj/l2norm.py:jacobian")],
 observe=["layer.jacobian(x, None, wrt='input')"])
p("C02","Weight Jacobian is exact and its columns follow parameters() order",
 "For every elementary layer with parameters, jacobian(x, wrt=\"weight\") returns, for each sample, the matrix of partial derivatives of the flattened output with respect to all parameters concatenated in the order of parameters() (each flattened row-major). For layers without parameters it returns None, and so does every product method called with wrt=\"weight\".",
 ["inputs","configurations"],"all batch sizes, feature/channel/spatial/kernel sizes, paddings, with and without bias, vmap and loop implementations, all real inputs and weights",
 "tests check one Linear and one Conv2d shape; equal channel counts, kernel larger than padding etc. are never varied",
 ELEM,[("outer product with identity, bias identity appended","nnj/linear.py:jacobian"),("correlation of flipped cotangent with flipped input, bias sum appended","nnj/conv2d.py:mjp"),("None for non parametric layers","*/jacobian wrt weight branch")],
 observe=["layer.jacobian(x, None, wrt='weight')"])
p("C03","jvp and jmp multiply by the Jacobian from the left",
 "For every elementary layer that implements them, jvp(x, val, v, wrt) equals J v and jmp(x, val, M, wrt) equals J M for each sample, where J is the derivative of the layer's flattened output with respect to the flattened input or the parameters, for any number of columns of M. Methods a layer does not implement raise NotImplementedError instead of returning a value.",
 ["inputs","configurations"],"all tangent vectors and matrices with any number of columns, all sizes, batch sizes, configurations, inputs and weights",
 "tests use batch size 1, a fixed number of columns and one shape per layer",
 ELEM+BASE,[("matrix-free einsum per layer","nnj/linear.py:jvp/jmp"),("diagonal scaling","nnj/abstract_diagonal_jacobian.py:jvp/jmp"),("pass-through","nnj/{flatten,reshape}.py"),("row gather at arg-max","nnj/maxpool2d.py:jmp")],
 observe=["layer.jvp","layer.jmp"])
p("C04","vjp and mjp multiply by the Jacobian from the right",
 "For every elementary layer, vjp(x, val, v, wrt) equals v^T J and mjp(x, val, M, wrt) equals M J for each sample, where J is the derivative of the layer's flattened output with respect to the flattened input or the parameters, for any number of rows of M. This holds for the vectorised and the loop implementation of the convolution alike.",
 ["inputs","configurations"],"all cotangents with any number of rows, all sizes, batch sizes, strides/paddings of pooling (overlapping windows included), kernel sizes, bias on/off, vmap on/off, inputs and weights",
 "tests use batch size 1, non-overlapping pooling and one shape per layer; the batch loop is executed exactly once",
 ELEM+BASE,[("einsum","nnj/linear.py:vjp/mjp"),("transposed convolution / correlation","nnj/conv2d.py:vjp/mjp"),("scatter at arg-max","nnj/maxpool2d.py:vjp/mjp"),("block-sum convolution","nnj/upsample.py:vjp/mjp")],
 observe=["layer.vjp","layer.mjp"])
p("C05","jTmjp is the pulled-back metric J^T M J in every diagonal mode",
 "For every elementary layer, jTmjp(x, val, M, wrt) equals J^T M J per sample for any (also non-symmetric) M. With from_diag=True a vector is taken as the diagonal of M, with to_diag=True exactly the diagonal of J^T M J is returned, in all four combinations and for wrt=\"input\" and wrt=\"weight\".",
 ["inputs","configurations"],"all matrices (non-symmetric included), all sizes, batch sizes, configurations, bias on/off, vmap on/off, inputs and weights",
 "tests run one shape per layer at batch size 1; for wrt=input the diagonal metric is always all-ones (the random one is overwritten)",
 ELEM+BASE,[("four-way branch","*/jTmjp"),("squared-weight transposed convolution for diag->diag","nnj/conv2d.py:jTmjp"),("two-sided scatter","nnj/maxpool2d.py:jTmjp"),("two-sided block sum","nnj/upsample.py:jTmjp")],
 observe=["layer.jTmjp"])
p("C06","jmjTp is the pushed-forward metric J M J^T in every diagonal mode",
 "For every elementary layer that implements it, jmjTp(x, val, M, wrt) equals J M J^T per sample for any (also non-symmetric) M. With from_diag=True a vector is taken as the diagonal of M, with to_diag=True exactly the diagonal is returned, in all four combinations and for wrt=\"input\" and wrt=\"weight\"; layers that do not implement it raise NotImplementedError.",
 ["inputs","configurations"],"all matrices (non-symmetric included), sizes, batch sizes, bias on/off, inputs and weights",
 "tests run one shape per layer at batch size 1",
 ["nnj/linear.py"]+BASE+["nnj/flatten.py","nnj/reshape.py","nnj/l2norm.py"],[("four-way branch with einsum","nnj/linear.py:jmjTp"),("diagonal scaling","nnj/abstract_diagonal_jacobian.py:jmjTp")],
 observe=["layer.jmjTp"])
p("C07","A custom layer only has to supply its Jacobian",
 "Any user-defined layer deriving from the abstract Jacobian class that implements only jacobian (dense, of any rectangular shape, symmetric or not) obtains correct jvp, jmp, vjp, mjp, jmjTp and jTmjp, in all diagonal modes, from the base class; likewise any layer deriving from the diagonal base class that returns its diagonal. A layer whose weight Jacobian is None gets None from every product with respect to weights.",
 ["inputs","programs"],"all dense rectangular Jacobians, all diagonal Jacobians, all batch sizes, vectors and matrices",
 "the only layer using the dense base class in the tests is L2Norm, whose Jacobian is square and symmetric, so transposition errors are invisible",
 BASE,[("einsum per product","nnj/abstract_jacobian.py"),("elementwise products with the diagonal","nnj/abstract_diagonal_jacobian.py")],
 observe=["subclass of nnj.AbstractJacobian / nnj.AbstractDiagonalJacobian"])
p("C08","Sequential applies the chain rule at any depth",
 "For a Sequential of one or more layers that honour the layer contract (nested containers included; layers given to the constructor or appended, inserted, replaced or deleted later; layers with parameters or pooling state appear once), jacobian, jvp, jmp, vjp, mjp, jmjTp and jTmjp with respect to input equal the corresponding products with the derivative of the whole composed map. With respect to weight they equal the products with the derivative with respect to all parameters in parameters() order, where jTmjp without to_diag returns the per-layer diagonal blocks as a list in layer order and jmjTp uses only the per-layer diagonal blocks of the given matrix; a network without parameters yields None.",
 ["inputs","programs","configurations"],"all depths, all layer kinds and mixes of parametric/non-parametric layers, all sizes, batch sizes, vectors, matrices and diagonal modes",
 "tests contain about ten hand-written networks at batch size 1",
 ["nnj/sequential.py"],[("loops over layers with recorded feature maps","nnj/sequential.py:vjp/mjp/jTmjp/jmjTp"),("parameter offsets","nnj/sequential.py:jvp/jmp/jmjTp")],
 state=[("feature maps","intermediate activations of the last forward pass","nnj/sequential.py:forward")],
 observe=["nnj.Sequential(...).<method>"])
p("C09","SkipConnection differentiates [x, F(x)] exactly",
 "For a skip connection around any stack of layers, forward concatenates the input and the stack's output along dimension 1, and jacobian, jvp, jmp, vjp, mjp, jmjTp and jTmjp equal the corresponding products with the derivative of that concatenation (identity block for the input, zero block for the weights) in every diagonal mode, for vector- and image-shaped inputs. If the stack has no parameters every product with respect to weight is None.",
 ["inputs","programs","configurations"],"all inner stacks honouring the layer contract, all shapes, batch sizes, vectors, non-symmetric matrices, diagonal modes",
 "tests have five skip networks at batch size 1, always with parameters inside",
 ["nnj/skipconnection.py"],[("block assembly around the inner stack","nnj/skipconnection.py")],
 observe=["nnj.SkipConnection(...).<method>"])
p("C10","diag_backprop propagates exact per-layer diagonals",
 "With diag_backprop=True (and from_diag=to_diag=True) a container's jTmjp/jmjTp returns exactly the result of pushing the diagonal metric through one layer at a time, keeping after each layer only the diagonal of that layer's exact product. With respect to weight the per-layer diagonals are concatenated (jTmjp) or accumulated (jmjTp) in layer order, and for a single elementary layer the flag does not change the result.",
 ["inputs","programs"],"all depths and layer mixes, sizes, batch sizes, diagonal metrics",
 "no test calls any method with diag_backprop=True",
 ["nnj/sequential.py","nnj/skipconnection.py"]+BASE,[("flag forwarding per layer","nnj/sequential.py:jTmjp/jmjTp")],
 observe=["jTmjp(..., from_diag=True, to_diag=True, diag_backprop=True)"])
p("C11","Omitting the metric means the identity",
 "Calling jTmjp, jmjTp, mjp or jmp with None in place of the matrix gives exactly the result of passing the identity matrix, for every layer and container that supports the call, for inputs of any rank, both values of wrt and both values of to_diag, also together with diag_backprop. Calls not supported raise NotImplementedError.",
 ["inputs","configurations"],"all layers, containers, input ranks, sizes, flags",
 "no test passes None as the matrix of a product",
 ELEM+BASE+["nnj/sequential.py","nnj/skipconnection.py"],[("None replaced by ones with from_diag=True","*/jTmjp, */jmjTp"),("None delegated to jacobian","*/mjp, */jmp")],
 observe=["layer.jTmjp(x, val, None, ...)"])
p("C12","Results do not depend on val being supplied or on earlier calls",
 "Every product and jacobian gives the same result whether the caller passes val=None or passes the output of the immediately preceding forward evaluation on the same input. With val=None the result depends only on the input, the parameters and the other arguments, never on which forward passes, products or inputs the same object processed before.",
 ["histories","inputs"],"all sequences of earlier forward/product calls with other inputs and batch sizes, followed by any product call",
 "tests always pass val=None and never compare with the other form or after interleaved inputs",
 ["nnj/sequential.py","nnj/skipconnection.py","nnj/maxpool2d.py"]+BASE,[("feature maps re-recorded by forward","nnj/sequential.py:forward"),("arg-max indices re-recorded by forward","nnj/maxpool2d.py:forward")],
 state=[("feature maps","activations recorded by hooks","nnj/sequential.py"),("pool indices","arg-max positions of last forward","nnj/maxpool2d.py")],
 observe=["m(x); m.vjp(x, m(x), v) vs m.vjp(x, None, v)"])
p("C13","Products never modify the caller's tensors or the parameters",
 "No forward pass, jacobian, product, likelihood or weight-reading call changes the contents of any tensor the caller passed in (input, val, vector, matrix, list of blocks, target) or of any parameter; only set_weight changes parameters (a ReLU built with inplace=True is the documented exception).",
 ["inputs","histories"],"all methods, argument values, sizes and modes",
 "tests never compare arguments before and after a call, and draw fresh ones for each call",
 ELEM+BASE+["nnj/sequential.py","nnj/skipconnection.py","nnj/log_likelihoods.py"],[("in-place accumulation only on fresh tensors","nnj/sequential.py jvp/jmp/jmjTp, nnj/maxpool2d.py, nnj/conv2d.py")],
 observe=["argument tensors before/after a call"])
p("C14","Results keep the model's floating-point type",
 "When input, parameters and supplied vectors/matrices all have one floating-point type (float32 or float64, whatever the default type), jacobian and every product of every layer and container succeed exactly as for float32 and return tensors of that type computed without narrowing any value to another type.",
 ["inputs","configurations"],"all layers, methods, modes and both float types",
 "the whole suite runs in float32, the default type, where missing dtype arguments are invisible",
 ELEM+BASE+["nnj/sequential.py","nnj/skipconnection.py"],[("dtype= arguments on created tensors","*/jacobian, conv2d, maxpool2d, upsample")],
 observe=["layer.double() products"])
p("C15","Log-likelihoods and their gradients are exact",
 "For any model, LogGaussian, LogBinaryBernoulli and LogBernoulli return, per sample, -||f(x)-t||^2/2, the Bernoulli log-probability of the target under independent logits, and the categorical log-probability under softmax over the last dimension. gradient returns the derivative of that per-sample value with respect to the parameters or the input (targets summing to one per softmax for LogBernoulli), and the batch aggregation option returns all, the sum, or the mean of the per-sample results.",
 ["inputs","configurations"],"all models honouring the layer contract, all outputs, targets, output ranks, batch sizes, aggregation modes, wrt",
 "no test touches the likelihood classes",
 ["nnj/log_likelihoods.py"],[("residual pulled back with vjp","nnj/log_likelihoods.py:gradient"),("logsumexp normalisation","nnj/log_likelihoods.py:forward")],
 observe=["nnj.LogGaussian(...)(x, model, target), .gradient(...)"])
p("C16","ggn pulls back the exact Hessian of the log-likelihood",
 "For each likelihood class, ggn equals J^T H J per sample, where H is the Hessian of the per-sample log-likelihood with respect to the model output (for any output rank) and J the model's derivative with respect to parameters or input: its diagonal when metric_shape is \"diag\", the full matrix (or list of per-layer blocks) when \"full\". The batch aggregation option returns all, the sum or the mean of the per-sample results.",
 ["inputs","configurations"],"all models, outputs, output ranks, batch sizes, aggregation modes, metric shapes, wrt",
 "no test touches the likelihood classes",
 ["nnj/log_likelihoods.py"],[("closed-form output Hessian pulled back with jTmjp","nnj/log_likelihoods.py:ggn")],
 observe=["nnj.LogBernoulli(...).ggn(x, model)"])
p("C17","Weights can be read, written and counted consistently",
 "For every layer and container (also after layers were appended, replaced or removed), get_weight returns all parameters as one vector in the same order as the columns of the weight Jacobian, its length is the advertised number of parameters, set_weight(w) followed by get_weight returns w and makes forward use w, and set_weight(get_weight()) changes nothing.",
 ["inputs","configurations","histories"],"all layers and containers, all sizes, with and without bias, any nesting, any vector w",
 "no test calls get_weight or set_weight",
 ["nnj/abstract_jacobian.py","nnj/linear.py","nnj/conv2d.py","nnj/sequential.py","nnj/skipconnection.py"],[("flatten/unflatten of parameters()","nnj/abstract_jacobian.py:get_weight/set_weight"),("parameter counting in constructors","*/__init__")],
 observe=["m.get_weight(), m.set_weight(w), m._n_params"])
p("C18","Converting a torch.nn network preserves the function it computes",
 "convert_to_nnj applied to a torch.nn.Sequential of Linear, Conv2d, MaxPool2d, Upsample, Flatten and activation layers in any configuration the nnj layers support (bias or not, padding, pooling stride, Softplus beta/threshold, upsampling factor, nested Sequential) returns a model whose output equals the original's on every input, with the same parameters in the same order (each layer with parameters appearing once). A configuration that cannot be represented raises an error instead of returning a different function.",
 ["programs","configurations","inputs"],"all torch.nn networks over the supported layer kinds and options, all inputs",
 "no test calls the converter",
 ["nnj/utils.py"],[("per-layer reconstruction","nnj/utils.py:convert_to_nnj")],
 observe=["nnj.convert_to_nnj(net)(x) vs net(x)"])
p("C19","Block-diagonal inversion inverts every block",
 "invert_block_diagonal applied to a symmetric positive definite matrix (or batch of them) returns its inverse, and applied to an arbitrarily nested list of such blocks returns the list of the inverses with the same nesting and order.",
 ["inputs"],"all sizes, batch shapes, SPD matrices and nesting structures",
 "no test calls it",
 ["nnj/utils.py"],[("Cholesky based inverse","nnj/utils.py:invert_block_diagonal")],
 observe=["nnj.invert_block_diagonal(M)"])
p("C20","Unsupported configurations are refused, never silently wrong",
 "For every constructor configuration of Conv2d (stride, dilation, groups, padding and padding mode) and Upsample (mode, scale factors), a Jacobian or product call either returns the exact result for that configuration or an error is raised (at construction or at the call). No accepted configuration yields a silently wrong value.",
 ["configurations","inputs"],"all constructor configurations of the layers, all inputs",
 "tests only construct supported configurations",
 ["nnj/conv2d.py","nnj/upsample.py"],[("constructor checks","nnj/conv2d.py:__init__, nnj/upsample.py:__init__")],
 observe=["nnj.Conv2d(..., padding_mode='circular')"])
p("C21","Forward passes compute what torch.nn computes",
 "Every layer's forward returns the same values as the torch.nn layer of the same name and configuration (TruncExp and Sinusoidal: exp and sin; Reshape and Flatten: row-major regrouping of each sample; L2Norm: x/(|x|+eps) per sample), a Sequential returns the composition of its layers in order, and recording of intermediate values neither changes the result nor blocks autograd through it.",
 ["inputs","configurations","programs"],"all layers, configurations, sizes, batch sizes and networks",
 "tests never compare forward values with torch.nn; they differentiate nnj's own forward",
 ELEM+["nnj/sequential.py"],[("inherited forward / explicit forward","*/forward"),("forward hooks","nnj/sequential.py:__init__")],
 observe=["layer(x)"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
