package vxm

var env map[string]string

//vx:redirect os.Getenv
func getenv(k string) string { return env[k] }

//vx:redirect os.Setenv
func setenv(k, v string) error {
	if env == nil {
		env = map[string]string{}
	}
	env[k] = v
	return nil
}

//vx:redirect os.Unsetenv
func unsetenv(k string) error {
	delete(env, k)
	return nil
}
