"""C16: collective training adds exactly the other ranks' measurements."""
from .dataset import insert_contract, list_contract, size_contract


def groups():
    return [dict(files=['src/Dataset.cpp'], contracts=lambda p: [
        insert_contract(p), list_contract(p), size_contract(p)])]
