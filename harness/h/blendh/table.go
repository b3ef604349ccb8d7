// Package blendh holds the harnesses for the blend package.
package blendh

// Table lists the harnesses.
var Table = map[string]func(){
	"Alpha": Alpha,
	"ByLuminance": ByLuminance,
	"Geometry": Geometry,
	"GeometryModes": GeometryModes,
	"GeometryOperator": GeometryOperator,
	"GeometryOperators": GeometryOperators,
	"GreyHSL": GreyHSL,
	"HSL": HSL,
	"HardMix": HardMix,
	"Opaque": Opaque,
	"OperatorAlpha": OperatorAlpha,
	"OperatorColour": OperatorColour,
	"OperatorDest": OperatorDest,
	"OperatorSource": OperatorSource,
	"Parallel": Parallel,
	"ParallelOperators": ParallelOperators,
	"Self": Self,
	"SelfEvery": SelfEvery,
	"SelfHSL": SelfHSL,
	"SelfOperators": SelfOperators,
	"SelfParallel": SelfParallel,
	"SoftLight": SoftLight,
	"TransparentDestination": TransparentDestination,
	"TransparentSource": TransparentSource,
	"Valid": Valid,
	"Weights": Weights,
	"WeightsDest": WeightsDest,
	"WeightsMask": WeightsMask,
	"WeightsOther": WeightsOther,
	"WeightsSource": WeightsSource,
	"ZeroMask": ZeroMask,
}
