// Stand-ins for the components of semantic-ui-react: elements which keep their
// props for the driver.
import { createElement, isValidElement } from 'react'

const names = 'Container Divider Header Image Icon Label Input Dropdown Button Form Grid Segment List Menu Message Loader Dimmer Popup Table Item Card Statistic Checkbox Radio Select TextArea Transition Ref Sticky Sidebar Modal Rail Reveal Step Tab Visibility'.split(' ')
const parts = 'Content Subheader Item Menu Divider Header Group Row Column Field Detail Label Description Icon Input Search SearchInput Text Up Actions Meta Extra Body Cell HeaderCell'.split(' ')

function part(name) {
  const c = ({ as, children, content, action, label, icon, ...props }) => {
    const inner = [children, content].filter((x) => x !== undefined && x !== null)
    for (const x of [action, label, icon]) if (isValidElement(x)) inner.push(x)
    if (as && as !== 'div') return createElement(as, props, ...inner)
    return createElement(typeof as === 'string' ? as : 'sui.' + name, props, ...inner)
  }
  return c
}
const made = {}
for (const n of names) {
  made[n] = part(n)
  for (const p of parts) made[n][p] = part(n + p)
}
export const {
  Container, Divider, Header, Image, Icon, Label, Input, Dropdown, Button, Form, Grid, Segment, List, Menu, Message, Loader, Dimmer, Popup, Table, Item, Card, Statistic, Checkbox, Radio, Select, TextArea, Transition, Ref, Sticky, Sidebar, Modal, Rail, Reveal, Step, Tab, Visibility,
} = made
