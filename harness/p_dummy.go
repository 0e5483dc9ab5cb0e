package main

import "github.com/rmera/boo/utils"

func mkBunch(X [][]float64, y []int) *utils.DataBunch {
	return &utils.DataBunch{Data: X, Labels: y, Keys: genKeys(len(X[0]))}
}
