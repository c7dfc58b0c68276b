from typing import Any

def as_localization_text(text):
    if isinstance(text, str):
        return {'en': text}
    return text

class Tag:
    title: LocalizationText
    icon: str | None

    def __init__(self, title, icon=None):
        self.title = as_localization_text(title)
        self.icon = icon

    def as_dict(self):
        result = {'title': self.title}
        if self.icon is not None:
            result['icon'] = self.icon
        return result
