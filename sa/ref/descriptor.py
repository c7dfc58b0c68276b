from abc import abstractmethod

class SonolusDescriptor:

    @abstractmethod
    def __get__(self, instance, owner):
        pass

    @abstractmethod
    def __set__(self, instance, value):
        pass
