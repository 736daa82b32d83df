package main

import "time"

// Limits; VERIF_TIER=thorough raises them.
var (
	fnBudget     = 40 * time.Second  // of the comparison of one function
	unrollBudget = 12 * time.Second  // of its comparison under one bound on iterations
	refBudget    = 420 * time.Second // of all comparisons of one check
	checkBudget  = 650 * time.Second // of one check
	unrollDepths = []int{2, 3, 4}
	machDeadline = 20.0
)

func thorough() {
	fnBudget = 150 * time.Second
	unrollBudget = 60 * time.Second
	refBudget = 700 * time.Second
	checkBudget = 840 * time.Second
	unrollDepths = []int{2, 3, 4, 6}
	machDeadline = 80
}

// memoryLimit bounds the memory of one check.
const memoryLimit = 14 << 30
