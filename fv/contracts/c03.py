"""Which rows a transform sees: the need for the whole entity, and how it is passed on to the features' inputs."""
from contracts.c06 import UsesFull, AddToTrie, AddToTrie1, AddToTrie2
CONTRACTS = [UsesFull, AddToTrie, AddToTrie1, AddToTrie2]
