class InternalError(RuntimeError):

    def __init__(self, message):
        super().__init__(message)

class CompilationError(RuntimeError):

    def __init__(self, message):
        super().__init__(message)
