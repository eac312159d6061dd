// Package vattr models the parts of OpenTelemetry attributes made by reflection.
package vattr

import "go.opentelemetry.io/otel/attribute"

//vsym:model go.opentelemetry.io/otel/internal/attribute.BoolSliceValue
func ofBools(v []bool) interface{} {
	switch len(v) {
	case 0:
		return [0]bool{}
	case 1:
		return [1]bool{v[0]}
	case 2:
		return [2]bool{v[0], v[1]}
	case 3:
		return [3]bool{v[0], v[1], v[2]}
	}
	panic("vattr: too many values")
}

//vsym:model go.opentelemetry.io/otel/internal/attribute.AsBoolSlice
func asBools(v interface{}) []bool {
	switch x := v.(type) {
	case [0]bool:
		return []bool{}
	case [1]bool:
		return append([]bool{}, x[:]...)
	case [2]bool:
		return append([]bool{}, x[:]...)
	case [3]bool:
		return append([]bool{}, x[:]...)
	}
	return nil
}

//vsym:model go.opentelemetry.io/otel/internal/attribute.Int64SliceValue
func ofInt64s(v []int64) interface{} {
	switch len(v) {
	case 0:
		return [0]int64{}
	case 1:
		return [1]int64{v[0]}
	case 2:
		return [2]int64{v[0], v[1]}
	case 3:
		return [3]int64{v[0], v[1], v[2]}
	}
	panic("vattr: too many values")
}

//vsym:model go.opentelemetry.io/otel/internal/attribute.AsInt64Slice
func asInt64s(v interface{}) []int64 {
	switch x := v.(type) {
	case [0]int64:
		return []int64{}
	case [1]int64:
		return append([]int64{}, x[:]...)
	case [2]int64:
		return append([]int64{}, x[:]...)
	case [3]int64:
		return append([]int64{}, x[:]...)
	}
	return nil
}

//vsym:model go.opentelemetry.io/otel/internal/attribute.Float64SliceValue
func ofFloat64s(v []float64) interface{} {
	switch len(v) {
	case 0:
		return [0]float64{}
	case 1:
		return [1]float64{v[0]}
	case 2:
		return [2]float64{v[0], v[1]}
	case 3:
		return [3]float64{v[0], v[1], v[2]}
	}
	panic("vattr: too many values")
}

//vsym:model go.opentelemetry.io/otel/internal/attribute.AsFloat64Slice
func asFloat64s(v interface{}) []float64 {
	switch x := v.(type) {
	case [0]float64:
		return []float64{}
	case [1]float64:
		return append([]float64{}, x[:]...)
	case [2]float64:
		return append([]float64{}, x[:]...)
	case [3]float64:
		return append([]float64{}, x[:]...)
	}
	return nil
}

//vsym:model go.opentelemetry.io/otel/internal/attribute.StringSliceValue
func ofStrings(v []string) interface{} {
	switch len(v) {
	case 0:
		return [0]string{}
	case 1:
		return [1]string{v[0]}
	case 2:
		return [2]string{v[0], v[1]}
	case 3:
		return [3]string{v[0], v[1], v[2]}
	}
	panic("vattr: too many values")
}

//vsym:model go.opentelemetry.io/otel/internal/attribute.AsStringSlice
func asStrings(v interface{}) []string {
	switch x := v.(type) {
	case [0]string:
		return []string{}
	case [1]string:
		return append([]string{}, x[:]...)
	case [2]string:
		return append([]string{}, x[:]...)
	case [3]string:
		return append([]string{}, x[:]...)
	}
	return nil
}

//vsym:model go.opentelemetry.io/otel/attribute.computeDistinctReflect
func distinct(kvs []attribute.KeyValue) interface{} {
	if len(kvs) != 0 {
		panic("vattr: too many attributes")
	}
	return [0]attribute.KeyValue{}
}
