package math

func factorial(n int) int {
	result := 1
	for i := 2; i <= n; i++ {
		result *= i
	}

	return result
}

// Sign returns the sign of an integer (-1 if negative, 1 otherwise).
func Sign(n int) int {
	if n%2 == 0 {
		return 1
	}

	return -1
}

// Binom returns the binomial coefficient.
func Binom(n, k int) int {
	if k > n-k {
		k = n - k
	}

	// every prefix of this product is itself a binomial coefficient, so the
	// divisions are exact, and no factorial can overflow
	result := 1
	for i := 1; i <= k; i++ {
		result = result * (n - k + i) / i
	}

	return result
}
