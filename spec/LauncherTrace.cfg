SPECIFICATION Spec
CONSTANT HeaderKeys = {"lightstep-access-token", "x-a", "x-b"}
