// the same results on other platforms: the obligations of the other checks, compiled for them
// tool: targets
// target: aarch64 = C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C18 C20 C21 C22 C23 C25 C26 C27 C30 C31
// target: ilp32 = C01 C02 C03 C04 C05 C07 C08 C09 C10 C11 C12 C13 C18 C20 C21 C22 C23 C25 C26 C27 C30 C31
// target: unsigned char = C25 C26 C32 C38
// target-thorough: aarch64 = C14 C15 C16 C17 C19 C28 C29 C32 C36
// target-thorough: ilp32 = C14 C15 C16 C17 C19 C28 C29 C32 C36
