//go:build go1.22

package main

import (
	"fmt"
	"math"
	mrand "math/rand"
	"reflect"
	"sort"
	"unsafe"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
	"github.com/nlpodyssey/goslide/verifsim/simrt"
)

type pairs = []index_value.Pair

// netSpec is everything needed to build a network.
type netSpec struct {
	layers   int
	sizes    []int
	types    []node.NodeType
	batch    int
	lr       float64
	inputDim int
	k, l     []int
	rangePow []int
	sparsity []float64 // training, then testing
	hash     configuration.HashFunctionType
	mode     configuration.LayerModeType
	adam     bool
}

type netOpts struct {
	maxLayers, maxHidden, maxOut, maxIn int
	minOut                              int
	minIn                               int
	maxBatch                            int
	modes                               []configuration.LayerModeType
	hashes                              []configuration.HashFunctionType
	minL                                int
	adam                                int // 0 either, 1 Adam, 2 SGD
	dense                               bool
	noDraws                             bool // active sets must not depend on the random numbers drawn
	bigK                                bool
	wide                                bool // now and then one dimension of a real network
}

var allModes = []configuration.LayerModeType{configuration.LayerMode4, configuration.LayerMode1, configuration.LayerMode2, configuration.LayerMode3}
var allHashes = []configuration.HashFunctionType{configuration.DensifiedWtaHashFunction, configuration.WtaHashFunction,
	configuration.SparseRandomProjectionHashFunction, configuration.DensifiedMinhashFunction}

func hashName(h configuration.HashFunctionType) string {
	return map[configuration.HashFunctionType]string{1: "wta", 2: "densified-wta", 3: "densified-minhash", 4: "random-projection"}[h]
}

func log2ceil(n int) int {
	p := 0
	for 1<<p < n {
		p++
	}
	return p
}

// tableSize is the smallest table exponent that holds every address.
func tableSize(h configuration.HashFunctionType, k, dim int) int {
	four := 1
	for i := 0; i < k; i++ {
		four *= 4
	}
	switch h {
	case configuration.WtaHashFunction:
		return log2ceil((dim-1)*(four-1)/3 + 1)
	case configuration.DensifiedWtaHashFunction:
		return log2ceil(7*(four-1)/3 + 1)
	case configuration.SparseRandomProjectionHashFunction:
		return k
	}
	return 0
}

func genNet(w *World, o netOpts) netSpec {
	buckets, maxL := 1200, 6
	s := netSpec{}
	if o.wide && w.Chance(1, 60) {
		switch w.Int(0, 6) {
		case 0:
			o.maxLayers, o.minOut, o.maxHidden = 7, min(o.minOut, 8), min(o.maxHidden, 8)
			s.layers = w.Int(4, 7)
			w.Hit("deep-network")
		case 1:
			o.minOut, o.maxOut = max(o.minOut, 100), max(o.maxOut, 400)
			w.Hit("many-outputs")
		case 2:
			o.maxHidden = max(o.maxHidden, 300)
			w.Hit("wide-hidden-layers")
		case 3:
			o.minIn, o.maxIn = max(o.minIn, 100), max(o.maxIn, 700)
			w.Hit("many-inputs")
		case 4:
			s.batch = w.Int(9, 70)
			w.Hit("large-batch")
		case 5:
			buckets, maxL = 6000, 80
			w.Hit("many-tables")
		case 6:
			// more outputs than the sampling mode tops an active set up to
			o.maxLayers, o.minOut, o.maxOut, o.maxHidden = min(o.maxLayers, 2), 1001, 1150, min(o.maxHidden, 4)
			o.minIn, o.maxIn = min(o.minIn, 10), min(o.maxIn, 10)
			s.batch = w.Int(1, 3)
			if w.Chance(1, 4) {
				s.batch = w.Int(9, 14)
			}
			if o.noDraws {
				// here sampling leaves some neurons out, at random
				var kept []configuration.LayerModeType
				for _, m := range o.modes {
					if m != configuration.LayerMode4 {
						kept = append(kept, m)
					}
				}
				o.modes = kept
			}
			w.Hit("over-1000-outputs")
		}
	}
	if s.layers == 0 {
		s.layers = w.Int(1, o.maxLayers)
	}
	s.hash = o.hashes[w.Int(0, len(o.hashes)-1)]
	s.mode = o.modes[w.Int(0, len(o.modes)-1)]
	if s.batch == 0 {
		s.batch = w.Int(1, max(1, o.maxBatch))
	}
	s.lr = simrt.Pick(w, 0.01, 0.001, 0.1, 0.0001, 0.01, 0.001, 0.1, 0.0001, 1, 3e-7, 0)
	switch o.adam {
	case 0:
		s.adam = !w.Chance(1, 3)
	case 1:
		s.adam = true
	}
	s.inputDim = w.Int(max(1, o.minIn), o.maxIn)
	for i := 0; i < s.layers; i++ {
		last := i == s.layers-1
		t := node.ReLU
		size := 0
		if last {
			t = node.Softmax
			size = w.Int(max(1, o.minOut), o.maxOut)
		} else {
			size = w.Int(1, o.maxHidden)
		}
		s.types = append(s.types, t)
		s.sizes = append(s.sizes, size)
	}
	dim := s.inputDim
	for i := 0; i < s.layers; i++ {
		maxK := 2
		if s.hash >= configuration.DensifiedMinhashFunction {
			maxK = 4
		}
		if s.hash == configuration.WtaHashFunction && dim > 100 {
			maxK = 1
		}
		k := w.Int(1, maxK)
		few := max(1, o.minL)
		if maxL > 10 {
			few = maxL / 2
		}
		l := w.Int(few, maxL)
		r := tableSize(s.hash, k, dim)
		if s.hash == configuration.DensifiedMinhashFunction {
			r = w.Int(0, 6)
		} else if w.Chance(1, 4) {
			r++
		}
		// not more work than a run can take: codes are probed for up to a hundred times each
		for l > max(1, o.minL) && (l<<uint(r) > buckets || k*l*s.sizes[i] > 24000) {
			l--
		}
		s.k, s.l, s.rangePow = append(s.k, k), append(s.l, l), append(s.rangePow, r)
		dim = s.sizes[i]
	}
	for half := 0; half < 2; half++ {
		for i := 0; i < s.layers; i++ {
			sp := 1.0
			sampled := s.mode == configuration.LayerMode1 || s.mode == configuration.LayerMode4 || i == s.layers-1
			if !o.dense && sampled && !w.Chance(1, 3) {
				sp = simrt.Pick(w, 0.5, 0.1, 0.9, 0.25, 0.5, 0.1, 0.7, 0.99, 0.03)
			}
			s.sparsity = append(s.sparsity, sp)
		}
	}
	return s
}

func (s netSpec) String() string {
	return fmt.Sprintf("hash=%s mode=%d adam=%v in=%d sizes=%v batch=%d lr=%g k=%v l=%v rangePow=%v sparsity=%v",
		hashName(s.hash), s.mode, s.adam, s.inputDim, s.sizes, s.batch, s.lr, s.k, s.l, s.rangePow, s.sparsity)
}

// install makes s the active configuration.
func (s netSpec) install() {
	c := configuration.Default()
	c.HashFunction, c.LayerMode, c.UseAdam = s.hash, s.mode, s.adam
	c.BatchSize, c.LearningRate, c.InputDim = s.batch, s.lr, s.inputDim
	c.NumLayer, c.SizesOfLayers = s.layers, append([]int(nil), s.sizes...)
	c.K, c.L, c.RangePow = append([]int(nil), s.k...), append([]int(nil), s.l...), append([]int(nil), s.rangePow...)
	c.Sparsity = append([]float64(nil), s.sparsity...)
	configuration.Global = c
}

func (s netSpec) build(cowID int) *network.Network {
	return network.New(cowID, s.layers, append([]int(nil), s.sizes...), append([]node.NodeType(nil), s.types...), s.batch, s.lr,
		s.inputDim, append([]int(nil), s.k...), append([]int(nil), s.l...), append([]int(nil), s.rangePow...), append([]float64(nil), s.sparsity...))
}

func (s netSpec) buildLayer(cowID, i int) *layer.Layer {
	dim := s.inputDim
	if i > 0 {
		dim = s.sizes[i-1]
	}
	return layer.New(cowID, s.sizes[i], dim, i, s.types[i], s.batch, s.k[i], s.l[i], s.rangePow[i], s.sparsity[i], nil, nil, nil, nil)
}

// trainable is how many distinct labels an example may have in this network.
func (s netSpec) maxLabels() int {
	out := s.sizes[s.layers-1]
	sp := s.sparsity[s.layers-1]
	if sp < 1 && (s.mode == configuration.LayerMode2 || s.mode == configuration.LayerMode3) {
		return int(math.Floor(float64(out) * sp))
	}
	return out
}

// labelCount is how many labels an example may have, mostly few.
func (s netSpec) labelCount(r *mrand.Rand) int {
	if r.Intn(8) == 0 {
		return min(16, s.maxLabels())
	}
	return min(3, s.maxLabels())
}

var layerPtr = reflect.TypeOf((*layer.Layer)(nil))

// layersOf finds the layers of a network, wherever it keeps them.
func layersOf(w *World, n *network.Network) []*layer.Layer {
	var out []*layer.Layer
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 4 {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return
			}
			if v.Type() == layerPtr {
				out = append(out, (*layer.Layer)(unsafe.Pointer(v.Pointer())))
				return
			}
			if v.Elem().Kind() == reflect.Struct {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(n), 0)
	if len(out) == 0 {
		w.Broken("no layers found inside the network")
	}
	return out
}

// params is what training changes.
type layerParams struct {
	w    [][]float64
	b    []float64
	mom  [][]float64
	vel  [][]float64
	momB []float64
	velB []float64
}

func snapshot(w *World, n *network.Network, adam bool) []layerParams {
	var out []layerParams
	for _, la := range layersOf(w, n) {
		out = append(out, snapshotLayer(la, adam))
	}
	return out
}

func snapshotLayer(la *layer.Layer, adam bool) layerParams {
	p := layerParams{}
	for i := 0; i < la.NumOfNodes(); i++ {
		nd := la.GetNodeById(i)
		p.w = append(p.w, append([]float64(nil), nd.Weights()...))
		p.b = append(p.b, nd.Bias())
		if adam {
			var m, v []float64
			for d := 0; d < nd.AdamTDim(); d++ {
				m = append(m, nd.GetAdamAvgMom(d))
				v = append(v, nd.GetAdamAvgVel(d))
			}
			p.mom, p.vel = append(p.mom, m), append(p.vel, v)
			p.momB, p.velB = append(p.momB, nd.GetAdamAvgMomBias()), append(p.velB, nd.GetAdamAvgVelBias())
		}
	}
	return p
}

// firstDiff says where two snapshots differ, bit by bit.
func firstDiff(a, b []layerParams) string {
	if len(a) != len(b) {
		return "number of layers"
	}
	ne := func(x, y float64) bool { return math.Float64bits(x) != math.Float64bits(y) }
	for i := range a {
		if len(a[i].w) != len(b[i].w) {
			return "number of neurons"
		}
		for j := range a[i].w {
			for d := range a[i].w[j] {
				if ne(a[i].w[j][d], b[i].w[j][d]) {
					return fmt.Sprintf("layer %d neuron %d weight %d: %v and %v", i, j, d, a[i].w[j][d], b[i].w[j][d])
				}
			}
			if ne(a[i].b[j], b[i].b[j]) {
				return fmt.Sprintf("layer %d neuron %d bias: %v and %v", i, j, a[i].b[j], b[i].b[j])
			}
			if a[i].mom != nil {
				for d := range a[i].mom[j] {
					if ne(a[i].mom[j][d], b[i].mom[j][d]) || ne(a[i].vel[j][d], b[i].vel[j][d]) {
						return fmt.Sprintf("layer %d neuron %d optimizer state %d: %v,%v and %v,%v", i, j, d,
							a[i].mom[j][d], a[i].vel[j][d], b[i].mom[j][d], b[i].vel[j][d])
					}
				}
				if ne(a[i].momB[j], b[i].momB[j]) || ne(a[i].velB[j], b[i].velB[j]) {
					return fmt.Sprintf("layer %d neuron %d bias optimizer state", i, j)
				}
			}
		}
	}
	return ""
}

func observeParams(w *World, ps []layerParams) {
	for _, p := range ps {
		for j := range p.w {
			w.Observe(p.w[j])
		}
		w.Observe(p.b)
	}
}

// netValue makes moderate feature values.
func netValue(r *mrand.Rand) float64 {
	switch r.Intn(20) {
	case 0, 4, 5:
		return 1
	case 2:
		return 0
	case 1, 6, 7:
		return -r.Float64()
	}
	if r.Intn(40) == 0 {
		return []float64{1e-7, -1e-5, 30, -17, 250}[r.Intn(5)]
	}
	return 0.05 + 1.5*r.Float64()
}

type exOpts struct {
	maxLabels, minLabels int
	maxFeatures          int
	dupLabels            bool
	full                 bool // every feature listed
	once                 bool // no feature listed twice
}

func genExample(r *mrand.Rand, dim, labels int, o exOpts) dataset.Example {
	ex := dataset.Example{Labels: []int{}}
	nl := min(o.maxLabels, labels)
	if nl > o.minLabels {
		nl = o.minLabels + r.Intn(nl-o.minLabels+1)
	}
	ex.Labels = append(ex.Labels, r.Perm(labels)[:nl]...)
	if o.dupLabels && nl > 0 && r.Intn(2) == 0 {
		for k := r.Intn(3) + 1; k > 0; k-- {
			ex.Labels = append(ex.Labels, ex.Labels[r.Intn(nl)])
		}
	}
	mf := o.maxFeatures
	if mf == 0 {
		mf = 12
		if dim > 60 {
			mf = dim
		}
	}
	nf := 1 + r.Intn(min(dim, mf))
	if o.full {
		nf = dim
	}
	idx := r.Perm(dim)[:nf]
	if !o.once && nf > 1 && r.Intn(12) == 0 {
		// nothing keeps a record from naming a feature twice
		idx[r.Intn(nf)] = idx[r.Intn(nf)]
	}
	if r.Intn(2) == 0 {
		sort.Ints(idx)
	}
	for _, i := range idx {
		ex.Features = append(ex.Features, index_value.Pair{Index: i, Value: netValue(r)})
	}
	return ex
}

// probe is one recorded call of a layer's forward pass.
type probe struct {
	la         *layer.Layer
	layerIndex int
	slot       int
	label      []int
	in, out    pairs
	retrieved  int
}

// onQuery reports every completed forward pass of a layer.
func onQuery(w *World, f func(p probe)) {
	w.OnCall("layer.Layer.QueryActiveNodeAndComputeActivations", func(args []any) func([]any) {
		if len(args) != 7 {
			w.Broken("the forward pass takes %d arguments", len(args)-1)
		}
		act, ok1 := args[2].([][]index_value.Pair)
		li, ok2 := args[3].(int)
		slot, ok3 := args[4].(int)
		label, ok4 := args[5].([]int)
		if !ok1 || !ok2 || !ok3 || !ok4 {
			w.Broken("the forward pass has other argument types")
		}
		in := append(pairs(nil), act[li]...)
		return func(res []any) {
			p := probe{layerIndex: li, slot: slot, label: label, in: in, out: append(pairs(nil), act[li+1]...)}
			if len(res) == 2 {
				p.retrieved, _ = res[0].(int)
				p.la, _ = res[1].(*layer.Layer)
			}
			if p.la == nil {
				w.Broken("the forward pass has other result types")
			}
			f(p)
		}
	})
}

func close2(a, b, tol float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return false
	}
	return math.Abs(a-b) <= tol
}
