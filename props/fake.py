"""A scripted link for the client: what is sent is recorded, what is received is given."""


class LinkError(Exception):
    pass


class FakeLink:
    def __init__(self, script):
        """script: ("recv", bytes) or ("fail", exception) for each receive, in order"""
        self.script = list(script)
        self.sent = []
        self.log = []
        self.send_error = None

    def connect(self):
        self.log.append("connect")

    def disconnect(self):
        self.log.append("disconnect")

    def send(self, data):
        self.log.append("send")
        if self.send_error is not None:
            raise self.send_error
        self.sent.append(data)

    def recv(self):
        self.log.append("recv")
        if not self.script:
            raise LinkError("nothing more to receive")
        kind, x = self.script.pop(0)
        if kind == "fail":
            raise x
        return x
