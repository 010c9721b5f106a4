export { default as Button } from "./Button.svelte";
export { default as Card } from "./Card.svelte";
export { default as Checkbox } from "./Checkbox.svelte";
export { default as Col } from "./Col.svelte";
export { default as Container } from "./Container.svelte";
export { default as Details } from "./Details.svelte";
export { default as Field } from "./Field.svelte";
export { default as Icon } from "./Icon.svelte";
export { default as Input } from "./Input.svelte";
export { default as Modal } from "./Modal.svelte";
export { default as Nav } from "./Nav.svelte";
export { default as Radio } from "./Radio.svelte";
export { default as Row } from "./Row.svelte";
export { default as Tab } from "./Tab.svelte";
export { default as Tabs } from "./Tabs.svelte";
export { default as Tag } from "./Tag.svelte";
